package checks

import (
	"fmt"
	"sync"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/ref"
)

// instance is a circuit with a valid proof.
type instance struct {
	name string
	mk   func() (*ref.Common, *ref.Circuit)
	once sync.Once
	com  *ref.Common
	ci   *ref.Circuit
	vk   *ref.VK
	p    *ref.Proof
}

func (s *instance) init() *instance {
	s.once.Do(func() {
		s.com, s.ci = s.mk()
		s.vk = s.ci.VK()
		s.p = s.ci.Prove(ref.Hooks{})
		if err := s.com.Verify(s.vk, s.p); err != nil {
			panic("model: honest proof rejected: " + err.Error())
		}
	})
	return s
}

// generated instance
func gen(name string, gs []ref.Gate, groups []int, deg, rate, pow, queries, nch, routed, qdf, npi, steps int) *instance {
	return &instance{name: name, mk: func() (*ref.Common, *ref.Circuit) {
		ar := make([]int, steps)
		for i := range ar {
			ar[i] = 4
		}
		c := ref.NewCommon(gs, groups, deg, rate, pow, queries, nch, routed, qdf, npi, ar)
		return c, ref.NewCircuit(c, uint64(len(name)+deg*7+npi))
	}}
}

// recorded instance
func recorded(dir string) *instance {
	s := &instance{name: dir}
	s.once.Do(func() {
		s.com, s.vk, s.p = loadRecorded("/repo/testdata/" + dir)
		if err := s.com.Verify(s.vk, s.p); err != nil {
			panic("model: recorded proof rejected: " + err.Error())
		}
	})
	return s
}

func smallInstances() []*instance {
	return []*instance{
		gen("noop-const", []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GArithmetic(2), ref.GPublicInput()}, []int{2, 2}, 4, 1, 2, 2, 1, 8, 8, 3, 0),
		gen("fold1", []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GArithmetic(2), ref.GPublicInput()}, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, 1),
		gen("fold2", []ref.Gate{ref.GNoop(), ref.GConstant(1), ref.GBaseSum(3, 2), ref.GPublicInput()}, []int{4}, 9, 3, 4, 2, 3, 8, 6, 0, 2),
	}
}

// largeInstances have one dimension each beyond the recorded proofs: leaf width
// and routed wires, final polynomial with challenges and public inputs, folding
// layers, queries.
func largeInstances() []*instance {
	return []*instance{
		gen("wide", append(stdGates(), ref.GBaseSum(141, 2)), []int{2, 3}, 5, 3, 2, 2, 2, 90, 8, 3, 1),
		gen("coeffs", stdGates(), []int{2, 2}, 7, 2, 2, 2, 4, 8, 8, 70, 0),
		gen("deep3", stdGates(), []int{2, 2}, 12, 4, 1, 2, 1, 8, 4, 3, 3),
		gen("queries", stdGates(), []int{2, 2}, 4, 4, 1, 40, 2, 8, 4, 9, 1),
	}
}

type runOpt struct {
	mode   eng.Mode
	opt    eng.Options
	consts bool                                                                            // proof given as constants (as ExampleVerifierCircuit does)
	common *types.CommonCircuitData                                                        // instead of the instance's
	shape  func(p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData) // changes of shape
	lanes  func(core *eng.Core, vars []*eng.Var)
}

// runVerify executes the real verifier circuit.
func runVerify(com *ref.Common, vk *ref.VK, p *ref.Proof, o runOpt) (eng.Result, *eng.Core) {
	api, core := eng.New(o.mode, o.opt)
	pv, vkv := proofVars(p), vkVars(vk)
	if o.shape != nil {
		o.shape(&pv, &vkv)
	}
	if o.lanes != nil {
		o.lanes(core, siteVars(&pv, &vkv))
	}
	if o.consts {
		toConsts(&pv, &vkv)
	}
	cd := o.common
	if cd == nil {
		x := commonData(com)
		cd = &x
	}
	res := core.Run(func(frontend.API) error {
		verifier.NewVerifierChip(api, *cd).Verify(pv.Proof, pv.PublicInputs, vkv)
		return nil
	})
	return res, core
}

// toConsts replaces the proof's variables (not the public inputs) by constants.
func toConsts(p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData) {
	hs := func(x []frontend.Variable) {
		for i := range x {
			x[i] = eng.Val(x[i])
		}
	}
	vk.CircuitDigest = eng.Val(vk.CircuitDigest)
	hs(vk.ConstantSigmasCap)
	hs(p.Proof.WiresCap)
	hs(p.Proof.PlonkZsPartialProductsCap)
	hs(p.Proof.QuotientPolysCap)
	forEachGL(&p.Proof, func(v *frontend.Variable) {
		if b := eng.Val(*v); b.IsUint64() {
			*v = b.Uint64()
		} else {
			*v = b
		}
	})
	f := &p.Proof.OpeningProof
	for _, c := range f.CommitPhaseMerkleCaps {
		hs(c)
	}
	for _, r := range f.QueryRoundProofs {
		for _, l := range r.InitialTreesProof.EvalsProofs {
			hs(l.MerkleProof.Siblings)
		}
		for _, s := range r.Steps {
			hs(s.MerkleProof.Siblings)
		}
	}
}

// forEachGL visits every Goldilocks element of a proof.
func forEachGL(p *variables.Proof, f func(v *frontend.Variable)) {
	o := &p.Openings
	for _, l := range []*variables.OpeningSet{o} {
		for i := range l.Constants {
			f(&l.Constants[i][0].Limb)
			f(&l.Constants[i][1].Limb)
		}
		for i := range l.PlonkSigmas {
			f(&l.PlonkSigmas[i][0].Limb)
			f(&l.PlonkSigmas[i][1].Limb)
		}
		for i := range l.Wires {
			f(&l.Wires[i][0].Limb)
			f(&l.Wires[i][1].Limb)
		}
		for i := range l.PlonkZs {
			f(&l.PlonkZs[i][0].Limb)
			f(&l.PlonkZs[i][1].Limb)
		}
		for i := range l.PlonkZsNext {
			f(&l.PlonkZsNext[i][0].Limb)
			f(&l.PlonkZsNext[i][1].Limb)
		}
		for i := range l.PartialProducts {
			f(&l.PartialProducts[i][0].Limb)
			f(&l.PartialProducts[i][1].Limb)
		}
		for i := range l.QuotientPolys {
			f(&l.QuotientPolys[i][0].Limb)
			f(&l.QuotientPolys[i][1].Limb)
		}
	}
	fp := &p.OpeningProof
	for q := range fp.QueryRoundProofs {
		r := &fp.QueryRoundProofs[q]
		for i := range r.InitialTreesProof.EvalsProofs {
			e := r.InitialTreesProof.EvalsProofs[i].Elements
			for k := range e {
				f(&e[k].Limb)
			}
		}
		for i := range r.Steps {
			e := r.Steps[i].Evals
			for k := range e {
				f(&e[k][0].Limb)
				f(&e[k][1].Limb)
			}
		}
	}
	for k := range fp.FinalPoly.Coeffs {
		f(&fp.FinalPoly.Coeffs[k][0].Limb)
		f(&fp.FinalPoly.Coeffs[k][1].Limb)
	}
	f(&fp.PowWitness.Limb)
}

func (s *instance) String() string {
	s.init()
	c := s.com
	return fmt.Sprintf("%s(deg=%d,rate=%d,pow=%d,queries=%d,ch=%d,routed=%d,qdf=%d,pi=%d,steps=%d)", s.name, c.DegreeBits, c.RateBits, c.PowBits, c.NumQueries, c.NumChallenges, c.NumRouted, c.QDF, c.NumPI, len(c.Arity))
}
