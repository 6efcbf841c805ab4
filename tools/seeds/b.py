TST='''
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
'''
VER='''package verifier

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/test"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func load() ExampleVerifierCircuit {
	p := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("../testdata/step/proof_with_public_inputs.json"))
	return ExampleVerifierCircuit{Proof: p.Proof, PublicInputs: p.PublicInputs,
		VerifierOnlyCircuitData: variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("../testdata/step/verifier_only_circuit_data.json")),
		CommonCircuitData:       types.ReadCommonCircuitData("../testdata/step/common_circuit_data.json")}
}

func accepts(f func(c *ExampleVerifierCircuit)) bool {
	c, w := load(), load()
	f(&c)
	f(&w)
	return test.IsSolved(&c, &w, ecc.BN254.ScalarField()) == nil
}

func shifted(v gl.Variable) gl.Variable {
	return gl.NewVariable(new(big.Int).Add(new(big.Int).SetUint64(v.Limb.(uint64)), gl.MODULUS))
}
'''
seed('zsnext-range','C19','verifier',
 [('verifier/verifier.go','''	for _, plonkZNext := range proof.Openings.PlonkZsNext {
		c.glChip.RangeCheckQE(plonkZNext)
	}
''','''	// The openings at g*zeta are as many as those at zeta.
	for i := range proof.Openings.PlonkZs {
		c.glChip.RangeCheck(proof.Openings.PlonkZsNext[i][0])
	}
''')],
 'an opening at g*zeta whose second coordinate is encoded as v+p',
 'The second coordinates of the openings of Z at g*zeta are not range checked, so a non-canonical encoding of a valid proof is accepted.',
 VER+'''
func TestDemo(t *testing.T) {
	if !accepts(func(*ExampleVerifierCircuit) {}) {
		t.Fatal("valid proof rejected")
	}
	for i := 0; i < 2; i++ {
		for k := 0; k < 2; k++ {
			if accepts(func(c *ExampleVerifierCircuit) {
				z := &c.Proof.Openings.PlonkZsNext[i][k]
				*z = shifted(*z)
			}) {
				t.Fatal("non-canonical opening accepted")
			}
		}
	}
}
''')
seed('pow-zero-skip','C11','challenger',
 [('challenger/challenger.go','	c.ObserveElement(powWitness)\n','	if config.ProofOfWorkBits > 0 {\n		c.ObserveElement(powWitness)\n	}\n')],
 'a configuration with proof-of-work difficulty zero',
 'With difficulty 0 the proof-of-work witness is not observed, so query indices differ from plonky2 and do not depend on it.',
 '''package challenger

import (
'''+TST+'''	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

type demoC struct{ A, B frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	ch := func(w frontend.Variable) gl.Variable {
		return NewChip(api).GetFriChallenges(nil, variables.PolynomialCoeffs{Coeffs: []gl.QuadraticExtensionVariable{gl.OneExtension()}}, gl.NewVariable(w), types.FriConfig{NumQueryRounds: 1}).FriQueryIndices[0]
	}
	api.AssertIsDifferent(ch(c.A).Limb, ch(c.B).Limb)
	return nil
}

func TestDemo(t *testing.T) {
	if err := test.IsSolved(&demoC{}, &demoC{A: 1, B: 2}, ecc.BN254.ScalarField()); err != nil {
		t.Fatal("query indices do not depend on the proof-of-work witness")
	}
}
''')
GT='''package gates

import (
'''+TST+'''	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

func qe(x ...int) []gl.QuadraticExtensionVariable {
	var o []gl.QuadraticExtensionVariable
	for _, v := range x {
		o = append(o, gl.NewVariable(v).ToQuadraticExtension())
	}
	return o
}
'''
seed('basesum-base','C12','plonk/gates',
 [('plonk/gates/base_sum_gate.go','''		for i := uint64(0); i < g.base; i++ {
			difference''','''		for i := uint64(0); i < g.base && i < 8; i++ {
			difference''')],
 'a BaseSum gate with a base larger than 8',
 'The digit check of BaseSum gates with base > 8 only covers digits 0..7: legal digits are rejected.',
 GT+'''
type demoC struct{ X frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	g := GateInstanceFromId("BaseSumGate { num_limbs: 2 } + Base: 16")
	w := qe(0, 0, 11)
	w[0] = gl.NewVariable(c.X).ToQuadraticExtension()
	w[1] = gl.NewVariable(api.Sub(c.X, 11*16)).ToQuadraticExtension()
	for _, r := range g.EvalUnfiltered(api, gl.New(api), *NewEvaluationVars(nil, w, poseidon.GoldilocksHashOut{})) {
		api.AssertIsEqual(r[0].Limb, 0)
		api.AssertIsEqual(r[1].Limb, 0)
	}
	return nil
}

func TestDemo(t *testing.T) {
	for d := 0; d < 16; d++ {
		if err := test.IsSolved(&demoC{}, &demoC{X: 11*16 + d}, ecc.BN254.ScalarField()); err != nil {
			t.Fatal(d, err)
		}
	}
}
''')
seed('two-selectors','C13','plonk/gates',
 [('plonk/gates/evaluate_gates.go','vars.localConstants[selectorIndex], numSelectors > 1)','vars.localConstants[selectorIndex], numSelectors > uint64(len(unselected)))'),
  ('plonk/gates/evaluate_gates.go','func (g *EvaluateGatesChip) evalFiltered(','// a lone selector column, with and without its unused value\nvar unselected = [2]uint64{UNUSED_SELECTOR, 0}\n\nfunc (g *EvaluateGatesChip) evalFiltered(')],
 'a circuit with exactly two selector columns',
 'With exactly two selectors the unused-selector factor is lost, so gate constraints are applied to rows that use gates of the other group.',
 GT+'''
type demoC struct{ S frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	gs := []Gate{GateInstanceFromId("NoopGate"), GateInstanceFromId("ConstantGate { num_consts: 1 }"), GateInstanceFromId("PublicInputGate")}
	e := NewEvaluateGatesChip(api, gs, 4, *NewSelectorsInfo([]uint64{0, 0, 1}, []uint64{0, 2}, []uint64{2, 3}))
	k := qe(0, 0, 5)
	k[1] = gl.NewVariable(c.S).ToQuadraticExtension()
	h := poseidon.GoldilocksHashOut{gl.One(), gl.One(), gl.One(), gl.One()}
	r := e.EvaluateGateConstraints(*NewEvaluationVars(k, qe(3, 4, 5, 6), h))
	for i := range r {
		api.AssertIsEqual(r[i][0].Limb, 0)
	}
	return nil
}

func TestDemo(t *testing.T) {
	// a Noop row: selector 1 is unused there
	if err := test.IsSolved(&demoC{}, &demoC{S: uint64(UNUSED_SELECTOR)}, ecc.BN254.ScalarField()); err != nil {
		t.Fatal(err)
	}
}
''')
seed('exponentiation-degree','C14','plonk/gates',
 [('plonk/gates/exponentiation_gate.go','''	baseInt, err := strconv.Atoi(base)
	if err != nil {
		panic("Invalid base field in ExponentiationGate")
	}

	if baseInt != gl.D {''','''	baseInt, err := strconv.ParseUint(base, 10, 8)
	if err != nil {
		baseInt = gl.D
	}

	if baseInt != gl.D {''')],
 'an exponentiation gate identifier with an extension degree of more than eight bits',
 'An identifier with an absurd extension degree is mapped to the degree-2 gate instead of being refused.',
 '''package gates

import "testing"

func TestDemo(t *testing.T) {
	for _, d := range []string{"1", "4", "256", "258", "18446744073709551618"} {
		func() {
			defer func() {
				if recover() == nil {
					t.Fatal("degree", d, "accepted")
				}
			}()
			GateInstanceFromId("ExponentiationGate { num_power_bits: 6, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=" + d + ">")
		}()
	}
	GateInstanceFromId("ExponentiationGate { num_power_bits: 6, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>")
}
''')
seed('hiding-zk','C21','types',
 [('types/common_data.go','	if raw.FriParams.Hiding {\n','	if raw.FriParams.Hiding && raw.Config.ZeroKnowledge {\n')],
 'a circuit description with hiding commitments whose config does not set zero_knowledge',
 'A circuit with hiding enabled in its FRI parameters is loaded as if it had none.',
 '''package types

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("../testdata/step/common_circuit_data.json")
	if err != nil {
		t.Fatal(err)
	}
	s := strings.Replace(strings.Replace(string(b), "\\"hiding\\":false", "\\"hiding\\":true", 1), "\\"hiding\\": false", "\\"hiding\\": true", 1)
	if s == string(b) {
		t.Fatal("no hiding field")
	}
	f := filepath.Join(t.TempDir(), "c.json")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if recover() == nil {
			t.Fatal("hiding circuit accepted")
		}
	}()
	ReadCommonCircuitData(f)
}
''')
seed('muladd-no-copy','C27','goldilocks',
 [('goldilocks/base.go','''	cLimbCopy := p.api.Mul(c.Limb, 1)
	return NewVariable(p.api.MulAcc(cLimbCopy, a.Limb, b.Limb))''','''	return NewVariable(p.api.MulAcc(c.Limb, a.Limb, b.Limb))''')],
 'compiling with the R1CS builder and using the addend again after MulAddNoReduce',
 "The R1CS builder's MulAcc may modify its first argument in place, so the caller's addend changes its value.",
 'package goldilocks\n'+IMP.replace('	"math/big"\n','')+HELP+'''
type demoC struct{ A, B, C, D frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	g := New(api)
	s := NewVariable(api.Add(c.C, c.D, c.A))
	s = NewVariable(api.Sub(s.Limb, c.A))
	g.MulAddNoReduce(NewVariable(c.A), NewVariable(3), s)
	api.AssertIsEqual(s.Limb, api.Add(c.C, c.D))
	return nil
}

func TestDemo(t *testing.T) {
	if err := demoSolve(&demoC{}, &demoC{A: 2, B: 3, C: 4, D: 5}); err != nil {
		t.Fatal(err)
	}
}
''')
seed('new-early-unlock','C26','goldilocks',
 [('goldilocks/base.go','''	mutex.Lock()
	defer mutex.Unlock()

	if chip, ok := poseidonChips[api]; ok {
		return chip
	}
''','''	mutex.Lock()
	chip, ok := poseidonChips[api]
	mutex.Unlock()
	if ok {
		return chip
	}
'''),('goldilocks/base.go','''	poseidonChips[api] = c

''','''	mutex.Lock()
	poseidonChips[api] = c
	mutex.Unlock()

''')],
 'two goroutines that call New for the same builder, the second entering between lookup and registration',
 'Two chips for one builder: the lookup and the registration are no longer one atomic step.',
 '''package goldilocks

import (
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
)

type demoC struct{ A frontend.Variable }

type slowAPI struct {
	frontend.API
	frontend.Rangechecker
	enter chan bool
}

func (s *slowAPI) Check(v frontend.Variable, n int) {}
func (s *slowAPI) Compiler() frontend.Compiler {
	select {
	case s.enter <- true:
		time.Sleep(300 * time.Millisecond)
	default:
	}
	return s.API.Compiler()
}

type commitAPI struct {
	frontend.API
	enter chan bool
}

func (s *commitAPI) Commit(...frontend.Variable) (frontend.Variable, error) { return 1, nil }
func (s *commitAPI) Compiler() frontend.Compiler {
	select {
	case s.enter <- true:
		time.Sleep(300 * time.Millisecond)
	default:
	}
	return s.API.Compiler()
}

func (c *demoC) Define(api frontend.API) error {
	a := &commitAPI{API: api, enter: make(chan bool, 1)}
	var x, y *Chip
	done := make(chan bool)
	go func() { x = New(a); done <- true }()
	time.Sleep(100 * time.Millisecond)
	y = New(a)
	<-done
	if x != y {
		panic("two chips for one builder")
	}
	return nil
}

func TestDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	if err := test.IsSolved(&demoC{}, &demoC{A: 1}, ecc.BN254.ScalarField()); err != nil && err.Error()[:3] == "two" {
		t.Fatal(err)
	}
}
''',env='unset USE_BIT_DECOMPOSITION_RANGE_CHECK')
