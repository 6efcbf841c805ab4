package checks

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

func chVars(c *ref.Challenges) variables.ProofChallenges {
	o := variables.ProofChallenges{PlonkBetas: fvs(c.Betas), PlonkGammas: fvs(c.Gammas), PlonkAlphas: fvs(c.Alphas), PlonkZeta: ve(c.Zeta)}
	o.FriChallenges = variables.FriChallenges{FriAlpha: ve(c.FriAlpha), FriBetas: ves(c.FriBetas), FriPowResponse: v(c.PowResp), FriQueryIndices: fvs(c.Queries)}
	return o
}

// plonkCfg is a bounded family of circuit descriptions.
type plonkCfg struct {
	gates  []ref.Gate
	groups []int
	deg    int
	nch    int
	routed int
	qdf    int
}

func plonkCfgs(thorough bool) []plonkCfg {
	n, k, a, p, b := ref.GNoop(), ref.GConstant(2), ref.GArithmetic(2), ref.GPublicInput(), ref.GBaseSum(3, 2)
	m, re, ra := ref.GMulExt(1), ref.GReducing(2), ref.GRandomAccess(1, 1, 1)
	lists := []struct {
		g  []ref.Gate
		gr []int
	}{
		{[]ref.Gate{n}, []int{1}},
		{[]ref.Gate{k, a}, []int{2}},
		{[]ref.Gate{n, p, a}, []int{1, 2}},
		{[]ref.Gate{n, k, p, b}, []int{3, 1}},
		{[]ref.Gate{n, m, re, ra, k}, []int{2, 2, 1}},
	}
	var out []plonkCfg
	i := 0
	maxR := 9
	if thorough {
		maxR = 17
	}
	for _, l := range lists {
		for nch := 1; nch <= 3; nch++ {
			for _, qdf := range []int{1, 2, 3, 4, 7, 8} {
				for routed := 1; routed <= maxR; routed++ {
					i++
					if !thorough && i%3 != 0 && !(nch == 2 && qdf == 8) {
						continue
					}
					out = append(out, plonkCfg{l.g, l.gr, 1 + (i*5)%14, nch, routed, qdf})
				}
			}
		}
	}
	// sizes beyond: degrees up to the two-adicity, more challenge rounds, more routed wires
	for d := 13; d <= 29; d++ {
		out = append(out, plonkCfg{lists[d%len(lists)].g, lists[d%len(lists)].gr, d, 1 + d%2, 3 + d%5, 8})
	}
	for _, x := range [][3]int{{4, 8, 8}, {5, 9, 4}, {6, 3, 2}, {8, 5, 8}, {9, 2, 8}, {2, 80, 8}, {2, 81, 8}, {1, 100, 8}, {2, 129, 8}, {3, 136, 7}, {2, 40, 16}, {1, 260, 32}, {2, 70, 1}} {
		out = append(out, plonkCfg{lists[x[0]%len(lists)].g, lists[x[0]%len(lists)].gr, 5 + x[0], x[0], x[1], x[2]})
	}
	return out
}

func (pc plonkCfg) common() *ref.Common {
	c := &ref.Common{NumChallenges: pc.nch, NumRouted: pc.routed, QDF: pc.qdf, DegreeBits: pc.deg, RateBits: 3, CapHeight: 4, Gates: pc.gates}
	at := 0
	for gi, sz := range pc.groups {
		c.Groups = append(c.Groups, [2]int{at, at + sz})
		for i := 0; i < sz; i++ {
			c.SelIdx = append(c.SelIdx, gi)
		}
		at += sz
	}
	nk := 0
	c.NumWires = pc.routed
	for _, g := range pc.gates {
		nk = max(nk, g.Consts)
		c.NumWires = max(c.NumWires, g.Wires)
		c.NumGateConstraints = max(c.NumGateConstraints, g.Num)
	}
	c.NumConstants = len(pc.groups) + nk
	c.NumPartial = (pc.routed+pc.qdf-1)/pc.qdf - 1
	return c
}

func (pc plonkCfg) String() string {
	s := ""
	for _, g := range pc.gates {
		s += g.Name + "+"
	}
	return fmt.Sprintf("%s%v,deg=%d,ch=%d,routed=%d,qdf=%d", s, pc.groups, pc.deg, pc.nch, pc.routed, pc.qdf)
}

// solveQuotient changes one quotient opening per round so that the identity holds.
func solveQuotient(c *ref.Common, ch *ref.Challenges, o *ref.Openings, pih [4]ref.F, at int) {
	l, r := c.PlonkSides(ch, o, pih)
	zn := ref.EPow(ch.Zeta, uint64(1)<<c.DegreeBits)
	zh := ref.ESub(zn, ref.E{1, 0})
	for i := range l {
		d := ref.EDiv(ref.ESub(l[i], r[i]), zh)
		k := at % c.QDF
		d = ref.EDiv(d, ref.EPow(zn, uint64(k)))
		q := &o.Quotients[i*c.QDF+k]
		*q = ref.EAdd(*q, d)
	}
}

func init() {
	reg("C15", func(c *Ctx) {
		c.Assume("openings and challenges range over generic and boundary values, one of them changed at a time by +1 or to a boundary value, with exact quotient openings computed by the model; zeta = 1 is excluded (L_0 is then written as 0/0 and the circuit is unsatisfiable by design, probability 2^-128)")
		cfgs := plonkCfgs(c.Thorough())
		c.Set("configurations", len(cfgs))
		type job struct {
			cfg  int
			fill int
			att  int
			mode eng.Mode
		}
		var jobs []job
		for i := range cfgs {
			jobs = append(jobs, job{i, i % 2, 0, eng.Native})
			if i%23 == 0 {
				jobs = append(jobs, job{i, 0, 0, eng.Plain})
			}
			if c.Thorough() {
				jobs = append(jobs, job{i, 1 - i%2, 0, eng.Native})
			}
		}
		na := 6
		if c.Thorough() {
			na = 40
		}
		for i := 0; i < na; i++ {
			jobs = append(jobs, job{(i * 37) % len(cfgs), 0, 1 + i, eng.Native})
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			pc := cfgs[j.cfg]
			com := pc.common()
			r := rng(j.cfg*7 + 3)
			get := func() ref.F {
				if j.fill == 1 && r.next()%2 == 0 {
					return alphabet(32)[r.next()%32]
				}
				return r.f()
			}
			ge := func(n int) []ref.E {
				o := make([]ref.E, n)
				for i := range o {
					o[i] = ref.E{get(), get()}
				}
				return o
			}
			for x := 0; x < pc.routed; x++ {
				com.KIs = append(com.KIs, get())
			}
			o := ref.Openings{Constants: ge(com.NumConstants), Sigmas: ge(com.NumRouted), Wires: ge(com.NumWires), Zs: ge(com.NumChallenges), ZsNext: ge(com.NumChallenges),
				Partials: ge(com.NumChallenges * com.NumPartial), Quotients: ge(com.NumChallenges * com.QDF)}
			ch := ref.Challenges{Zeta: ref.E{r.f(), r.f()}}
			for x := 0; x < pc.nch; x++ {
				ch.Betas, ch.Gammas, ch.Alphas = append(ch.Betas, get()), append(ch.Gammas, get()), append(ch.Alphas, r.f())
			}
			pih := [4]ref.F{get(), get(), get(), get()}
			solveQuotient(com, &ch, &o, pih, j.cfg)
			opt := eng.Options{}
			if j.att > 0 {
				// an inconsistent set of openings, wrong in one round only
				x := (j.att % pc.nch) * pc.qdf
				o.Quotients[x] = ref.EAdd(o.Quotients[x], ref.E{1, 0})
				opt = attack(eng.Small, 1, 0)
				if !c.Thorough() {
					opt.To = 2500
				}
				opt.KeepTrace = true
			}
			api, core := eng.New(j.mode, opt)
			defer core.Release()
			p := &ref.Proof{Open: o}
			ov := openingSet(&p.Open)
			cv := chVars(&ch)
			hv := pihVar(pih)
			var ss []Site
			var vars []*eng.Var
			all := sites(p, &ref.VK{})
			ss = append(ss, all[1:len(all)-1]...) // without digest and pow
			pv := variables.ProofWithPublicInputs{Proof: variables.Proof{Openings: ov, OpeningProof: variables.FriProof{PowWitness: v(0)}}}
			vv := siteVars(&pv, &variables.VerifierOnlyCircuitData{CircuitDigest: eng.NewVar(0)})
			vars = append(vars, vv[1:len(vv)-1]...)
			add := func(n string, x *ref.F, y frontend.Variable) {
				ss, vars = append(ss, Site{Name: n, F: x}), append(vars, y.(*eng.Var))
			}
			for x := 0; x < pc.nch; x++ {
				add(caseKey("beta", x), &ch.Betas[x], cv.PlonkBetas[x].Limb)
				add(caseKey("gamma", x), &ch.Gammas[x], cv.PlonkGammas[x].Limb)
				add(caseKey("alpha", x), &ch.Alphas[x], cv.PlonkAlphas[x].Limb)
			}
			for x := 0; x < 2; x++ {
				add(caseKey("zeta", x), &ch.Zeta[x], cv.PlonkZeta[x].Limb)
			}
			for x := range pih {
				add(caseKey("pih", x), &pih[x], hv[x].Limb)
			}
			if len(ss) != len(vars) {
				panic("site lists differ")
			}
			type tl struct {
				l    int32
				name string
				ok   bool
			}
			var tls []tl
			if j.att == 0 {
				for x, s := range ss {
					for _, to := range []ref.F{ref.Add(*s.F, 1), 0, ref.P - 1} {
						old := *s.F
						if to == old || to == 0 && x%4 != 0 || to == ref.P-1 && x%4 != 1 {
							continue
						}
						*s.F = to
						if ch.Zeta == (ref.E{1, 0}) {
							*s.F = old
							continue
						}
						a, b := com.PlonkSides(&ch, &p.Open, pih)
						*s.F = old
						ok := true
						for z := range a {
							ok = ok && a[z] == b[z]
						}
						l := core.InputLane()
						core.SetAlt(vars[x], l, u(to))
						tls = append(tls, tl{l, fmt.Sprintf("%s:=%d", s.Name, to), ok})
					}
				}
			}
			res := core.Run(func(frontend.API) error {
				chip := plonk.NewPlonkChip(api, commonData(com))
				chip.Verify(cv, ov, poseidon.GoldilocksHashOut(hv))
				return nil
			})
			c.Account(res)
			key := caseKey("plonk", pc, j.fill, j.mode)
			if res.Panic != nil || res.Err != nil {
				c.Violate(key, pc.String(), "the Plonk check of a well-formed circuit was refused: %s", clip(res.BaseFail))
				return
			}
			c.Trace(1)
			if j.att > 0 {
				if res.BaseOK {
					c.Violate(key+"/inconsistent", pc.String(), "openings inconsistent in one challenge round are accepted")
				}
				for _, l := range res.Alive {
					c.Violate(key+"/advice", map[string]any{"config": pc.String(), "advice": core.Trace(l)}, "dishonest advice makes inconsistent openings pass")
					break
				}
				return
			}
			if !res.BaseOK {
				c.Violate(key, pc.String(), "consistent openings are rejected: %s", clip(res.BaseFail))
				return
			}
			alive := map[int32]bool{}
			for _, l := range res.Alive {
				alive[l] = true
			}
			for _, t := range tls {
				if alive[t.l] != t.ok {
					c.Violate(key+"/"+t.name, map[string]any{"config": pc.String(), "change": t.name, "openings": p.Open, "challenges": ch}, "changed openings or challenges (%s): accepted=%v, expected %v", t.name, alive[t.l], t.ok)
				}
				c.Trace(1)
			}
			c.Count("changed_elements", int64(len(tls)))
		})
		c.Sample(cfgs[0].String())
		c.Sample(cfgs[len(cfgs)/2].String())
	})
}
