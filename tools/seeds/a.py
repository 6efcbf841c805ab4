IMP='''
import (
	"math/big"
	"os"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)
'''
GLPKG='package goldilocks\n'+IMP+HELP
seed('limb-width-48','C03','goldilocks',
 [('goldilocks/base.go','	p.rangeCheckerCheck(leastSigLimb, 32)\n','	p.rangeCheckerCheck(leastSigLimb, 48)\n')],
 'a prover that splits a value at or above the modulus into limbs with an overlong low limb (dishonest hint)',
 'The Goldilocks range check accepts values outside [0,p): the low limb may be 48 bits wide, so p+k has an alternative split whose high limb is not all ones.',
 GLPKG+'''
type demoC struct{ X frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	New(api).RangeCheck(NewVariable(c.X))
	return nil
}

func TestDemo(t *testing.T) {
	split := func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		two32 := new(big.Int).Lsh(big.NewInt(1), 32)
		out[0].Rsh(in[0], 32)
		out[0].Sub(out[0], big.NewInt(1))
		out[1].Sub(in[0], new(big.Int).Mul(out[0], two32))
		return nil
	}
	x := new(big.Int).Add(MODULUS, big.NewInt(5))
	err := demoSolve(&demoC{}, &demoC{X: x}, solver.OverrideHint(solver.GetHintID(SplitLimbsHint), split))
	if err == nil {
		t.Fatal("p+5 passes the Goldilocks range check")
	}
	if err := demoSolve(&demoC{}, &demoC{X: 5}); err != nil {
		t.Fatal(err)
	}
}
''')
seed('muladd-quotient-192','C02','goldilocks',
 [('goldilocks/base.go','	p.RangeCheck(quotient)\n	p.RangeCheck(remainder)\n	return remainder\n','	// the quotient only has to be bounded\n	p.rangeCheckerCheck(quotient.Limb, 192)\n	p.RangeCheck(remainder)\n	return remainder\n')],
 'a dishonest hint that makes MODULUS*quotient wrap around the BN254 field',
 'MulAdd (hence Add, Sub, Mul) can be made to return a wrong result: quotient*p may exceed the native field.',
 GLPKG+'''
type demoC struct {
	A, B, C frontend.Variable
	R       frontend.Variable
}

func (c *demoC) Define(api frontend.API) error {
	x := New(api).MulAdd(NewVariable(c.A), NewVariable(c.B), NewVariable(c.C))
	api.AssertIsEqual(x.Limb, c.R)
	return nil
}

func TestDemo(t *testing.T) {
	lhs := big.NewInt(3*5 + 7)
	s := new(big.Int).Add(lhs, ecc.BN254.ScalarField())
	q, r := new(big.Int).DivMod(s, MODULUS, new(big.Int))
	bad := func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		out[0].Set(q)
		out[1].Set(r)
		return nil
	}
	if err := demoSolve(&demoC{}, &demoC{A: 3, B: 5, C: 7, R: r}, solver.OverrideHint(solver.GetHintID(MulAddHint), bad)); err == nil {
		t.Fatal("3*5+7 =", r)
	}
	if err := demoSolve(&demoC{}, &demoC{A: 3, B: 5, C: 7, R: 22}); err != nil {
		t.Fatal(err)
	}
}
''')
seed('inverse-zero-extension','C04','goldilocks',
 [('goldilocks/quadratic_extension.go','	aIsZero := p.IsZero(a)\n	p.api.AssertIsEqual(aIsZero, frontend.Variable(0))\n','')],
 'inverting or dividing by the zero element of the extension',
 'InverseExtension and DivExtension accept a zero operand (result chosen through the hint).',
 'package goldilocks\n'+IMP.replace('	"math/big"\n','')+HELP+'''
type demoC struct{ A, B frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	New(api).InverseExtension(NewQuadraticExtensionVariable(NewVariable(c.A), NewVariable(c.B)))
	return nil
}

func TestDemo(t *testing.T) {
	if err := demoSolve(&demoC{}, &demoC{A: 0, B: 0}); err == nil {
		t.Fatal("zero has an inverse")
	}
	if err := demoSolve(&demoC{}, &demoC{A: 3, B: 0}); err != nil {
		t.Fatal(err)
	}
}
''')
seed('assert-ext-half','C15','plonk',
 [('goldilocks/quadratic_extension.go','	p.AssertIsEqual(a[0], b[0])\n	p.AssertIsEqual(a[1], b[1])\n','	// both differences at once\n	diff := p.SubExtension(a, b)\n	p.api.AssertIsEqual(p.api.Mul(diff[0].Limb, diff[1].Limb), 0)\n')],
 'openings whose two sides differ in one coordinate only',
 'Equality of extension elements is checked as a product of the coordinate differences, so openings that agree in one coordinate pass the vanishing check.',
 '''package plonk

import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

type demoC struct{ A, B [2]frontend.Variable }

func (c *demoC) Define(api frontend.API) error {
	q := func(x [2]frontend.Variable) gl.QuadraticExtensionVariable {
		return gl.NewQuadraticExtensionVariable(gl.NewVariable(x[0]), gl.NewVariable(x[1]))
	}
	gl.New(api).AssertIsEqualExtension(q(c.A), q(c.B))
	return nil
}

func TestDemo(t *testing.T) {
	ok := func(a, b [2]frontend.Variable) bool {
		w := demoC{A: a, B: b}
		return test.IsSolved(&demoC{}, &w, ecc.BN254.ScalarField()) == nil
	}
	if !ok([2]frontend.Variable{1, 2}, [2]frontend.Variable{1, 2}) {
		t.Fatal("equal values refused")
	}
	if ok([2]frontend.Variable{1, 2}, [2]frontend.Variable{1, 3}) || ok([2]frontend.Variable{1, 2}, [2]frontend.Variable{2, 2}) {
		t.Fatal("different values accepted as equal")
	}
}
''')
seed('pow-aligned-up','C18','fri',
 [('fri/fri.go','	f.gl.RangeCheckWithMaxBits(powWitness, 64-friConfig.ProofOfWorkBits)\n','''	// The commit based range checker only handles widths that are a multiple of its base width.
	width := uint64(gl.EXPECTED_OPTIMAL_BASEWIDTH)
	nbBits := 64 - friConfig.ProofOfWorkBits
	f.gl.RangeCheckWithMaxBits(powWitness, (nbBits+width-1)/width*width)
''')],
 'a circuit whose proof-of-work difficulty is not a multiple of 16',
 'The proof-of-work check is weaker than configured when the difficulty is not a multiple of 16 (e.g. no check at all for 10 bits).',
 '''package fri

import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
)

type demoC struct {
	X    frontend.Variable
	bits uint64
}

func (c *demoC) Define(api frontend.API) error {
	f := NewChip(api, &types.CommonCircuitData{}, &types.FriParams{})
	f.assertLeadingZeros(gl.NewVariable(c.X), types.FriConfig{ProofOfWorkBits: c.bits})
	return nil
}

func TestDemo(t *testing.T) {
	for _, b := range []uint64{10, 16, 20} {
		for _, x := range []uint64{1<<(64-b) - 1, 1 << (64 - b)} {
			err := test.IsSolved(&demoC{bits: b}, &demoC{X: x, bits: b}, ecc.BN254.ScalarField())
			if (err == nil) != (x < 1<<(64-b)) {
				t.Fatal(b, x, err)
			}
		}
	}
}
''')
FRIH='''
// a FRI instance whose committed values are all zero
type demoC struct {
	F, G   frontend.Variable
	degree uint64
	steps  int
}

var tamper func(p *variables.FriProof, caps []variables.FriMerkleCap)

func zeros(n int) []gl.Variable {
	o := make([]gl.Variable, n)
	for i := range o {
		o[i] = gl.Zero()
	}
	return o
}

func ezeros(n int) []gl.QuadraticExtensionVariable {
	o := make([]gl.QuadraticExtensionVariable, n)
	for i := range o {
		o[i] = gl.ZeroExtension()
	}
	return o
}

func (c *demoC) Define(api frontend.API) error {
	var cd types.CommonCircuitData
	cd.Config.NumWires, cd.Config.NumRoutedWires, cd.Config.NumChallenges = 4, 2, 1
	cd.NumConstants, cd.QuotientDegreeFactor, cd.DegreeBits = 2, 2, c.degree
	cd.FriParams.DegreeBits = c.degree
	cd.FriParams.Config = types.FriConfig{RateBits: 3, CapHeight: 4, ProofOfWorkBits: 16, NumQueryRounds: 2}
	for i := 0; i < c.steps; i++ {
		cd.FriParams.ReductionArityBits = append(cd.FriParams.ReductionArityBits, 4)
	}
	f := NewChip(api, &cd, &cd.FriParams)
	h := poseidon.NewBN254Chip(api)
	lde := int(c.degree) + 3
	path := func(n, height int) ([]frontend.Variable, variables.FriMerkleCap) {
		d := h.HashOrNoop(zeros(n))
		var sib []frontend.Variable
		for i := 0; i < height; i++ {
			sib = append(sib, d)
			d = h.TwoToOne(d, d)
		}
		cap := make(variables.FriMerkleCap, 16)
		for i := range cap {
			cap[i] = d
		}
		return sib, cap
	}
	sizes := []int{4, 4, 1, 2}
	var caps []variables.FriMerkleCap
	var p variables.FriProof
	for q := 0; q < 2; q++ {
		var r variables.FriQueryRound
		caps = nil
		for _, n := range sizes {
			s, cap := path(n, lde-4)
			caps = append(caps, cap)
			r.InitialTreesProof.EvalsProofs = append(r.InitialTreesProof.EvalsProofs, variables.FriEvalProof{Elements: zeros(n), MerkleProof: variables.FriMerkleProof{Siblings: s}})
		}
		p.CommitPhaseMerkleCaps = nil
		for i := 0; i < c.steps; i++ {
			s, cap := path(32, lde-4*(i+1)-4)
			p.CommitPhaseMerkleCaps = append(p.CommitPhaseMerkleCaps, cap)
			r.Steps = append(r.Steps, variables.FriQueryStep{Evals: ezeros(16), MerkleProof: variables.FriMerkleProof{Siblings: s}})
		}
		p.QueryRoundProofs = append(p.QueryRoundProofs, r)
	}
	p.FinalPoly.Coeffs = ezeros(1 << (int(c.degree) - 4*c.steps))
	p.FinalPoly.Coeffs[0] = gl.QuadraticExtensionVariable{gl.NewVariable(c.F), gl.NewVariable(c.G)}
	p.PowWitness = gl.Zero()
	if tamper != nil {
		tamper(&p, caps)
	}
	ch := variables.FriChallenges{FriAlpha: gl.QuadraticExtensionVariable{gl.NewVariable(11), gl.NewVariable(12)}, FriPowResponse: gl.NewVariable(5),
		FriQueryIndices: []gl.Variable{gl.NewVariable(9), gl.NewVariable(77)}}
	for i := 0; i < c.steps; i++ {
		ch.FriBetas = append(ch.FriBetas, gl.QuadraticExtensionVariable{gl.NewVariable(13 + i), gl.NewVariable(14)})
	}
	zeta := gl.QuadraticExtensionVariable{gl.NewVariable(3), gl.NewVariable(4)}
	f.VerifyFriProof(f.GetInstance(zeta), Openings{Batches: []OpeningBatch{{Values: ezeros(11)}, {Values: ezeros(1)}}}, &ch, caps, &p)
	return nil
}

func run(degree uint64, steps int, f, g int, tam func(p *variables.FriProof, caps []variables.FriMerkleCap)) (err error) {
	tamper = tam
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("refused: %v", p)
		}
	}()
	return test.IsSolved(&demoC{degree: degree, steps: steps}, &demoC{F: f, G: g, degree: degree, steps: steps}, ecc.BN254.ScalarField())
}
'''
FRIP='''package fri

import (
	"fmt"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)
'''+FRIH
seed('final-poly-half','C16','fri',
 [('fri/fri.go','	f.gl.AssertIsEqual(oldEval[1], finalPolyEval[1])\n','')],
 'a final polynomial that is wrong in the extension coordinate only',
 'Only the base coordinate of the final polynomial evaluation is compared with the last folded value.',
 FRIP+'''
func TestDemo(t *testing.T) {
	for _, s := range []int{0, 1} {
		d := uint64(1 + 5*s)
		if err := run(d, s, 0, 0, nil); err != nil {
			t.Fatal(err)
		}
		if run(d, s, 1, 0, nil) == nil || run(d, s, 0, 1, nil) == nil {
			t.Fatal("wrong final polynomial accepted")
		}
	}
}
''')
seed('last-layer-merkle','C17','fri',
 [('fri/fri.go','''		f.verifyMerkleProofToCapWithCapIndex(
			fieldEvals,
			cosetIndexBits,
			capIndexBits,
			proof.CommitPhaseMerkleCaps[i],
			&roundProof.Steps[i].MerkleProof,
		)
''','''		// A layer that is no larger than its cap has no path to check.
		if len(cosetIndexBits) > len(capIndexBits) {
			f.verifyMerkleProofToCapWithCapIndex(
				fieldEvals,
				cosetIndexBits,
				capIndexBits,
				proof.CommitPhaseMerkleCaps[i],
				&roundProof.Steps[i].MerkleProof,
			)
		}
''')],
 'a circuit whose last folding layer has exactly as many leaves as the cap has entries (empty Merkle path)',
 'For a folding layer with an empty path the opened coset is no longer compared with the commitment at all.',
 FRIP+'''
func TestDemo(t *testing.T) {
	if err := run(5, 1, 0, 0, nil); err != nil {
		t.Fatal(err)
	}
	if run(5, 1, 0, 0, func(p *variables.FriProof, _ []variables.FriMerkleCap) {
		for i := range p.CommitPhaseMerkleCaps[0] {
			p.CommitPhaseMerkleCaps[0][i] = 12345
		}
	}) == nil {
		t.Fatal("layer opened against a cap it was not committed in")
	}
}
''')
seed('short-path','C20','fri',
 [('fri/fri_utils.go','			if len(merkleProof.Siblings)+int(capHeight) != params.LdeBits() {\n','			if len(merkleProof.Siblings)+int(capHeight) > params.LdeBits() {\n')],
 'a proof whose initial-tree authentication paths are too short',
 'Merkle paths of the initial trees that are shorter than the tree are no longer refused when the circuit is built.',
 FRIP+'''
func TestDemo(t *testing.T) {
	if err := run(3, 0, 0, 0, nil); err != nil {
		t.Fatal(err)
	}
	for o := 0; o < 4; o++ {
		if run(3, 0, 0, 0, func(p *variables.FriProof, caps []variables.FriMerkleCap) {
			for q := range p.QueryRoundProofs {
				m := &p.QueryRoundProofs[q].InitialTreesProof.EvalsProofs[o].MerkleProof
				n := len(m.Siblings) - 1
				for i := range caps[o] {
					caps[o][i] = m.Siblings[n]
				}
				m.Siblings = m.Siblings[:n]
			}
		}) == nil {
			t.Fatal("a path one level short is accepted")
		}
	}
}
''')
