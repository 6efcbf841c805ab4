package checks

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/logger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/ref"
)

// packaged is the ready-made circuit around a proof. pis, when given, are the
// public inputs (any native values).
func packaged(com *ref.Common, vk *ref.VK, p *ref.Proof, pis []*big.Int) *verifier.ExampleVerifierCircuit {
	pv, vkv := proofVars(p), vkVars(vk)
	toConsts(&pv, &vkv)
	var pi []gl.Variable
	for i := range p.PI {
		if pis == nil {
			pi = append(pi, gl.NewVariable(u(p.PI[i])))
		} else {
			pi = append(pi, gl.NewVariable(pis[i]))
		}
	}
	return &verifier.ExampleVerifierCircuit{PublicInputs: pi, Proof: pv.Proof, VerifierOnlyCircuitData: vkv, CommonCircuitData: commonData(com)}
}

type piCase struct {
	name string
	pis  []*big.Int
}

// every single-element change and every exchange of two elements
func piCases(pi []ref.F, deep bool) (o []piCase) {
	base := func() []*big.Int {
		var b []*big.Int
		for _, x := range pi {
			b = append(b, new(big.Int).SetUint64(uint64(x)))
		}
		return b
	}
	o = append(o, piCase{"unchanged", base()})
	p := gl.MODULUS
	for i := range pi {
		if !deep && i > 1 && i < len(pi)-1 && i != 7 {
			continue
		}
		x := base()[i]
		vals := []*big.Int{new(big.Int).Add(x, big.NewInt(1)), new(big.Int).Sub(x, big.NewInt(1)), big.NewInt(0), new(big.Int).Add(x, p), new(big.Int).Sub(p, x),
			new(big.Int).Sub(ecc.BN254.ScalarField(), big.NewInt(1)), new(big.Int).Add(x, new(big.Int).Lsh(big.NewInt(1), 64))}
		for k, v := range vals {
			if !deep && k > 0 && (k+i)%3 > 0 {
				continue
			}
			b := base()
			b[i] = v
			o = append(o, piCase{fmt.Sprintf("public input %d = %v", i, v), b})
		}
		for j := 0; j < i; j++ {
			if !deep && j > 0 && j < i-1 {
				continue
			}
			b := base()
			b[i], b[j] = b[j], b[i]
			o = append(o, piCase{fmt.Sprintf("public inputs %d and %d exchanged", i, j), b})
		}
	}
	if len(pi) > 1 {
		b := base()
		b = append(b[1:], b[0])
		o = append(o, piCase{"public inputs rotated", b})
		var z []*big.Int
		for range pi {
			z = append(z, big.NewInt(0))
		}
		o = append(o, piCase{"all zero", z})
	}
	return
}

// residue of a native value modulo the Goldilocks modulus
func residue(x *big.Int) ref.F {
	v := new(big.Int).Mod(x, ecc.BN254.ScalarField())
	return ref.F(v.Mod(v, gl.MODULUS).Uint64())
}

func sameInts(a, b []*big.Int) bool {
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return len(a) == len(b)
}

func init() {
	reg("C29", func(c *Ctx) {
		c.Assume("assignments of the public inputs: every single-element change (successor, predecessor, zero, negation, +p, +2^64, -1), every exchange of two, rotation, all zero")
		logger.Disable()
		insts := append(smallInstances(), gen("pi1", stdGates(), []int{2, 2}, 4, 1, 0, 1, 1, 8, 8, 1, 0), gen("pi9", stdGates(), []int{2, 2}, 4, 3, 1, 1, 2, 8, 4, 9, 0))
		if c.Thorough() {
			insts = append(insts, gateInstances()...)
			insts = append(insts, configInstances(false)...)
		}
		// 1: circuit semantics
		type job struct {
			in   *instance
			mode eng.Mode
			pi   piCase
			site int  // changed element of the proof fixed in the circuit, -1: none
			enc  bool // given as v+p instead of changed to v+1
		}
		var jobs []job
		for k, in := range insts {
			in.init()
			for n, pc := range piCases(in.p.PI, c.Thorough()) {
				m := eng.Native
				if n%7 == 0 && (c.Thorough() || n == 0 && k == 0) {
					m = eng.Plain
				}
				jobs = append(jobs, job{in, m, pc, -1, false})
			}
			seen := map[string]int{}
			lim := 1
			if c.Thorough() {
				lim = 1000
			}
			for s, x := range sites(in.p, in.vk) {
				if kd := siteKind(x.Name); seen[kd] < lim && (k < 1 || c.Thorough()) {
					seen[kd]++
					jobs = append(jobs, job{in, eng.Native, piCases(in.p.PI, false)[0], s, false})
					if x.F != nil && !strings.HasPrefix(x.Name, "pi[") {
						jobs = append(jobs, job{in, eng.Native, piCases(in.p.PI, false)[0], s, true})
					}
				}
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			if c.Enough() {
				return
			}
			p, vk := cloneProof(j.in.p), cloneVK(j.in.vk)
			name := j.in.name + ": " + j.pi.name
			if j.enc {
				s := sites(p, vk)[j.site]
				name += ", with " + s.Name + " of the fixed proof given as v+p"
			} else if j.site >= 0 {
				s := sites(p, vk)[j.site]
				s.set(new(big.Int).Add(s.get(), big.NewInt(1)))
				name += ", with " + s.Name + " of the fixed proof changed"
			}
			good := cloneProof(p)
			canonical := true
			for k, x := range j.pi.pis {
				canonical = canonical && x.Sign() >= 0 && x.Cmp(gl.MODULUS) < 0
				good.PI[k] = residue(x)
			}
			want := j.in.com.Verify(vk, good) == nil && !j.enc
			api, core := eng.New(j.mode, eng.Options{})
			defer core.Release()
			ci := packaged(j.in.com, vk, p, j.pi.pis)
			if j.enc {
				pv, vkv := proofVars(p), vkVars(vk)
				siteVars(&pv, &vkv)[j.site].V.SetBigInt(nonCanon(*sites(p, vk)[j.site].F, 1))
				toConsts(&pv, &vkv)
				ci.Proof, ci.VerifierOnlyCircuitData = pv.Proof, vkv
			}
			for k := range ci.PublicInputs {
				x := new(big.Int).Mod(j.pi.pis[k], ecc.BN254.ScalarField())
				ci.PublicInputs[k] = gl.NewVariable(eng.NewVar(x))
			}
			res := core.Run(func(frontend.API) error { return ci.Define(api) })
			c.Account(res)
			c.Trace(1)
			c.Count("circuit_verdicts", 1)
			// whether an encoding that is not canonical is refused is the caller's business
			if res.BaseOK != want && (canonical || res.BaseOK) {
				c.Violate(caseKey("semantics", name), nil, "%s: accepted=%v, expected %v (%v %v %s)", name, res.BaseOK, want, res.Panic, res.Err, res.BaseFail)
			}
		})
		if c.Enough0() {
			return
		}
		// 2: compiled
		comp := []*instance{gen("compiled", stdGates(), []int{2, 2}, 4, 1, 0, 1, 1, 8, 8, 3, 0), gen("compiled-pi9", stdGates(), []int{2, 2}, 4, 3, 0, 1, 2, 8, 4, 9, 0)}
		type cjob struct {
			in *instance
			b  int
		}
		var cjobs []cjob
		for k, in := range comp {
			in.init()
			for b := range builders {
				if k == 0 || b == 0 || c.Thorough() {
					cjobs = append(cjobs, cjob{in, b})
				}
			}
		}
		c.ParN(4, len(cjobs), func(i int) {
			j := cjobs[i]
			in, bn := j.in, builders[j.b].name
			compile := func(ci *verifier.ExampleVerifierCircuit) (ccs constraint.ConstraintSystem, err error) {
				err = guarded(func() (e error) {
					ccs, e = frontend.Compile(ecc.BN254.ScalarField(), builders[j.b].nb, ci)
					return
				})
				return
			}
			ccs, err := compile(packaged(in.com, in.vk, in.p, nil))
			if err != nil {
				c.Violate(caseKey("compile", in.name, bn), nil, "%s: the packaged circuit does not compile: %s", bn, clip(err.Error()))
				return
			}
			np := len(in.p.PI)
			pub := ccs.GetNbPublicVariables()
			if bn == "r1cs" {
				pub-- // the constant one
			}
			if pub != np || ccs.GetNbSecretVariables() != 0 {
				c.Violate(caseKey("variables", in.name, bn), nil, "%s: %d public and %d secret variables for %d public inputs", bn, pub, ccs.GetNbSecretVariables(), np)
				return
			}
			solve := func(w frontend.Circuit) (bool, []*big.Int) {
				var pv []*big.Int
				err := guarded(func() error {
					wit, e := frontend.NewWitness(w, ecc.BN254.ScalarField())
					if e != nil {
						return e
					}
					pw, e := wit.Public()
					if e != nil {
						return e
					}
					for _, x := range pw.Vector().(fr.Vector) {
						pv = append(pv, x.BigInt(new(big.Int)))
					}
					return ccs.IsSolved(wit, commitOpts(ccs)...)
				})
				return err == nil, pv
			}
			other := cloneProof(in.p)
			other.Open.Wires[0][0] = ref.Add(other.Open.Wires[0][0], 1)
			for n, pc := range piCases(in.p.PI, false) {
				if n > 8 && n%3 != 0 && !c.Thorough() {
					continue
				}
				want, canonical := true, true
				for k, x := range pc.pis {
					want = want && residue(x) == in.p.PI[k]
					canonical = canonical && x.Sign() >= 0 && x.Cmp(gl.MODULUS) < 0
				}
				w := packaged(in.com, in.vk, in.p, pc.pis)
				if n%2 == 1 {
					// what an assignment says about the proof does not matter
					w = packaged(in.com, in.vk, other, pc.pis)
				}
				ok, pv := solve(w)
				c.State(1)
				c.Trace(1)
				c.Count("compiled_verdicts", 1)
				if ok != want && (canonical || ok) {
					c.Violate(caseKey("compiled", in.name, bn, pc.name), nil, "%s, %s: %s: accepted=%v, expected %v", bn, in.name, pc.name, ok, want)
					return
				}
				exp := []*big.Int{}
				for _, x := range pc.pis {
					exp = append(exp, new(big.Int).Mod(x, ecc.BN254.ScalarField()))
				}
				if !sameInts(pv, exp) {
					c.Violate(caseKey("witness", in.name, bn), nil, "%s, %s: the public witness is %v for public inputs %v", bn, in.name, pv, exp)
					return
				}
			}
			// the template's public inputs are variables: other values give the same system
			var dig [2][32]byte
			for k := range dig {
				if k == 0 {
					var b bytes.Buffer
					ccs.WriteTo(&b)
					dig[k] = sha256.Sum256(b.Bytes())
					continue
				}
				t := packaged(in.com, in.vk, in.p, nil)
				for x := range t.PublicInputs {
					if k == 1 {
						t.PublicInputs[x] = gl.NewVariable(u(ref.F(x)))
					}
				}
				cs, err := compile(t)
				if err != nil {
					c.Violate(caseKey("template", in.name, bn), nil, "%s: the packaged circuit does not compile with other public inputs in the template: %s", bn, clip(err.Error()))
					return
				}
				var b bytes.Buffer
				cs.WriteTo(&b)
				dig[k] = sha256.Sum256(b.Bytes())
				c.State(1)
			}
			if dig[0] != dig[1] {
				c.Violate(caseKey("template", in.name, bn), nil, "%s: the compiled packaged circuit depends on the public inputs in the template", bn)
			}
			// a circuit around an invalid proof accepts nothing
			ss := sites(in.p, in.vk)
			step := len(ss)/3 + 1
			if c.Thorough() {
				step = len(ss)/40 + 1
			}
			for s := i; s < len(ss); s += step {
				p, vk := cloneProof(in.p), cloneVK(in.vk)
				x := sites(p, vk)[s]
				x.set(new(big.Int).Add(x.get(), big.NewInt(1)))
				if in.com.Verify(vk, p) == nil {
					continue
				}
				bad, err := compile(packaged(in.com, vk, p, nil))
				ok := false
				if err == nil {
					good := packaged(in.com, in.vk, in.p, nil)
					ok = guarded(func() error {
						wit, e := frontend.NewWitness(good, ecc.BN254.ScalarField())
						if e != nil {
							return e
						}
						return bad.IsSolved(wit, commitOpts(bad)...)
					}) == nil
				}
				c.State(1)
				c.Count("circuits_around_invalid_proofs", 1)
				if ok {
					c.Violate(caseKey("invalid", in.name, bn, x.Name), nil, "%s: a circuit around a proof with %s changed accepts the public inputs", bn, x.Name)
					return
				}
			}
		})
	})
}
