package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

// Site is one element of a proof, key or statement.
type Site struct {
	Name string
	F    *ref.F      // Goldilocks element, or
	H    *fr.Element // digest
}

func (s Site) get() *big.Int {
	if s.F != nil {
		return u(*s.F)
	}
	return frBig(*s.H)
}

// set stores a canonical value.
func (s Site) set(x *big.Int) {
	if s.F != nil {
		*s.F = x.Uint64()
	} else {
		s.H.SetBigInt(x)
	}
}

// sites lists every element of a proof and key in a fixed order.
func sites(p *ref.Proof, vk *ref.VK) []Site {
	var o []Site
	f := func(n string, x *ref.F) { o = append(o, Site{Name: n, F: x}) }
	h := func(n string, x *fr.Element) { o = append(o, Site{Name: n, H: x}) }
	es := func(n string, x []ref.E) {
		for i := range x {
			f(fmt.Sprintf("%s[%d].0", n, i), &x[i][0])
			f(fmt.Sprintf("%s[%d].1", n, i), &x[i][1])
		}
	}
	hs := func(n string, x []fr.Element) {
		for i := range x {
			h(fmt.Sprintf("%s[%d]", n, i), &x[i])
		}
	}
	h("digest", &vk.Digest)
	hs("vkcap", vk.Cap)
	for i := range p.PI {
		f(fmt.Sprintf("pi[%d]", i), &p.PI[i])
	}
	hs("wirescap", p.WiresCap)
	hs("zscap", p.ZsCap)
	hs("quotcap", p.QuotientCap)
	es("constants", p.Open.Constants)
	es("sigmas", p.Open.Sigmas)
	es("wires", p.Open.Wires)
	es("zs", p.Open.Zs)
	es("zsnext", p.Open.ZsNext)
	es("partials", p.Open.Partials)
	es("quotients", p.Open.Quotients)
	for i := range p.CommitCaps {
		hs(fmt.Sprintf("commit%d", i), p.CommitCaps[i])
	}
	for q := range p.Rounds {
		r := &p.Rounds[q]
		for i := range r.Leaves {
			for j := range r.Leaves[i].Elems {
				f(fmt.Sprintf("q%d.leaf%d[%d]", q, i, j), &r.Leaves[i].Elems[j])
			}
			hs(fmt.Sprintf("q%d.path%d", q, i), r.Leaves[i].Path)
		}
		for i := range r.Steps {
			es(fmt.Sprintf("q%d.step%d", q, i), r.Steps[i].Evals)
			hs(fmt.Sprintf("q%d.steppath%d", q, i), r.Steps[i].Path)
		}
	}
	es("final", p.FinalPoly)
	f("pow", &p.Pow)
	return o
}

// siteVars lists the circuit variables in the same order.
func siteVars(p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData) []*eng.Var {
	var o []*eng.Var
	a := func(x frontend.Variable) { o = append(o, x.(*eng.Var)) }
	fs := func(x []gl.Variable) {
		for i := range x {
			a(x[i].Limb)
		}
	}
	es := func(x []gl.QuadraticExtensionVariable) {
		for i := range x {
			fs(x[i][:])
		}
	}
	hs := func(x []frontend.Variable) {
		for i := range x {
			a(x[i])
		}
	}
	a(vk.CircuitDigest)
	hs(vk.ConstantSigmasCap)
	fs(p.PublicInputs)
	hs(p.Proof.WiresCap)
	hs(p.Proof.PlonkZsPartialProductsCap)
	hs(p.Proof.QuotientPolysCap)
	o2 := &p.Proof.Openings
	for _, x := range [][]gl.QuadraticExtensionVariable{o2.Constants, o2.PlonkSigmas, o2.Wires, o2.PlonkZs, o2.PlonkZsNext, o2.PartialProducts, o2.QuotientPolys} {
		es(x)
	}
	fp := &p.Proof.OpeningProof
	for _, c := range fp.CommitPhaseMerkleCaps {
		hs(c)
	}
	for _, r := range fp.QueryRoundProofs {
		for _, l := range r.InitialTreesProof.EvalsProofs {
			fs(l.Elements)
			hs(l.MerkleProof.Siblings)
		}
		for _, s := range r.Steps {
			es(s.Evals)
			hs(s.MerkleProof.Siblings)
		}
	}
	es(fp.FinalPoly.Coeffs)
	a(fp.PowWitness.Limb)
	return o
}

// cloneProof copies deeply.
func cloneProof(p *ref.Proof) *ref.Proof {
	q := *p
	ch := func(x []fr.Element) []fr.Element { return append([]fr.Element(nil), x...) }
	ce := func(x []ref.E) []ref.E { return append([]ref.E(nil), x...) }
	q.PI = append([]ref.F(nil), p.PI...)
	q.WiresCap, q.ZsCap, q.QuotientCap = ch(p.WiresCap), ch(p.ZsCap), ch(p.QuotientCap)
	q.Open = ref.Openings{Constants: ce(p.Open.Constants), Sigmas: ce(p.Open.Sigmas), Wires: ce(p.Open.Wires), Zs: ce(p.Open.Zs), ZsNext: ce(p.Open.ZsNext), Partials: ce(p.Open.Partials), Quotients: ce(p.Open.Quotients)}
	q.CommitCaps, q.Rounds = nil, nil
	for _, c := range p.CommitCaps {
		q.CommitCaps = append(q.CommitCaps, ch(c))
	}
	for _, r := range p.Rounds {
		var n ref.Round
		for _, l := range r.Leaves {
			n.Leaves = append(n.Leaves, ref.Leaf{Elems: append([]ref.F(nil), l.Elems...), Path: ch(l.Path)})
		}
		for _, s := range r.Steps {
			n.Steps = append(n.Steps, ref.Step{Evals: ce(s.Evals), Path: ch(s.Path)})
		}
		q.Rounds = append(q.Rounds, n)
	}
	q.FinalPoly = ce(p.FinalPoly)
	return &q
}

func cloneVK(k *ref.VK) *ref.VK {
	return &ref.VK{Cap: append([]fr.Element(nil), k.Cap...), Digest: k.Digest}
}

// flatCh lists challenges in drawing order.
func flatCh(c *ref.Challenges) (names []string, vals []ref.F) {
	add := func(n string, x ...ref.F) {
		for i := range x {
			names = append(names, fmt.Sprintf("%s%d", n, i))
			vals = append(vals, x[i])
		}
	}
	add("beta", c.Betas...)
	add("gamma", c.Gammas...)
	add("alpha", c.Alphas...)
	add("zeta", c.Zeta[:]...)
	add("frialpha", c.FriAlpha[:]...)
	for i := range c.FriBetas {
		add(fmt.Sprintf("fribeta%d.", i), c.FriBetas[i][:]...)
	}
	add("pow", c.PowResp)
	add("query", c.Queries...)
	return
}

func flatChVars(c *variables.ProofChallenges) []gl.Variable {
	var o []gl.Variable
	o = append(o, c.PlonkBetas...)
	o = append(o, c.PlonkGammas...)
	o = append(o, c.PlonkAlphas...)
	o = append(o, c.PlonkZeta[:]...)
	f := &c.FriChallenges
	o = append(o, f.FriAlpha[:]...)
	for i := range f.FriBetas {
		o = append(o, f.FriBetas[i][:]...)
	}
	o = append(o, f.FriPowResponse)
	return append(o, f.FriQueryIndices...)
}
