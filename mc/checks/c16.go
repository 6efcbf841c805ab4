package checks

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

// friSetup is a circuit with everything its FRI openings are taken from.
type friSetup struct {
	name string
	com  *ref.Common
	ci   *ref.Circuit
	p    *ref.Proof
	d    *ref.FriData
	once sync.Once
	mk   func() *ref.Common
}

func (s *friSetup) init() {
	s.once.Do(func() {
		s.com = s.mk()
		s.ci = ref.NewCircuit(s.com, 5)
		s.p = s.ci.Prove(ref.Hooks{Data: func(d *ref.FriData) { s.d = d }})
		if err := s.com.Verify(s.ci.VK(), s.p); err != nil {
			panic("model: honest proof rejected: " + err.Error())
		}
		for i := range s.d.Leaves {
			s.d.Tree(i)
		}
		for i := range s.d.Layers {
			s.d.Layer(i)
		}
	})
}

func (s *friSetup) lde() int { return s.com.DegreeBits + s.com.RateBits }

// arithmetic-style gate list used by the generated circuits
func stdGates() []ref.Gate {
	return []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GArithmetic(2), ref.GPublicInput()}
}

func friSetups(thorough bool) []*friSetup {
	mk := func(name string, deg, rate, nch, routed, qdf int, arity []int) *friSetup {
		return &friSetup{name: name, mk: func() *ref.Common {
			return ref.NewCommon(stdGates(), []int{2, 2}, deg, rate, 2, 2, nch, routed, qdf, 3, arity)
		}}
	}
	wide := &friSetup{name: "wide", mk: func() *ref.Common {
		return ref.NewCommon(append(stdGates(), ref.GBaseSum(141, 2)), []int{2, 3}, 5, 3, 2, 2, 2, 90, 8, 3, []int{4})
	}}
	out := []*friSetup{
		mk("d4r1", 4, 1, 1, 8, 8, []int{}), // single zs column: leaf is not hashed
		mk("d4r4s1", 4, 4, 2, 8, 4, []int{4}),
		mk("d5r3s1", 5, 3, 3, 8, 4, []int{4}),
		mk("d9r3s2", 9, 3, 2, 8, 4, []int{4, 4}),
		mk("d4r3", 4, 3, 2, 8, 4, []int{}), mk("d6r2s1", 6, 2, 1, 8, 8, []int{4}),
		mk("d7r2", 7, 2, 4, 8, 8, []int{}), // long final polynomial, four challenges
		mk("d12r4s3", 12, 4, 1, 8, 4, []int{4, 4, 4}),
		wide,
	}
	if thorough {
		out = append(out, mk("d8r4s2", 8, 4, 1, 8, 4, []int{4, 4}), mk("d10r3s2", 10, 3, 5, 8, 4, []int{4, 4}), mk("d14r4s3", 14, 4, 2, 8, 4, []int{4, 4, 4}))
	}
	return out
}

// friVar is a variant of a FRI instance.
type friVar struct {
	name string
	p    *ref.Proof
	vk   *ref.VK
	ch   *ref.Challenges
}

func cloneCh(c *ref.Challenges) *ref.Challenges {
	n := *c
	n.FriBetas = append([]ref.E(nil), c.FriBetas...)
	n.Queries = append([]ref.F(nil), c.Queries...)
	return &n
}

func chSites(c *ref.Challenges) []Site {
	o := []Site{{Name: "zeta.0", F: &c.Zeta[0]}, {Name: "zeta.1", F: &c.Zeta[1]}, {Name: "frialpha.0", F: &c.FriAlpha[0]}, {Name: "frialpha.1", F: &c.FriAlpha[1]}, {Name: "powresp", F: &c.PowResp}}
	for i := range c.FriBetas {
		o = append(o, Site{Name: caseKey("fribeta", i, 0), F: &c.FriBetas[i][0]}, Site{Name: caseKey("fribeta", i, 1), F: &c.FriBetas[i][1]})
	}
	for i := range c.Queries {
		o = append(o, Site{Name: caseKey("query", i), F: &c.Queries[i]})
	}
	return o
}

func chSiteVars(c *variables.ProofChallenges) []*eng.Var {
	f := &c.FriChallenges
	var o []*eng.Var
	a := func(x ...frontend.Variable) {
		for _, y := range x {
			o = append(o, y.(*eng.Var))
		}
	}
	a(c.PlonkZeta[0].Limb, c.PlonkZeta[1].Limb, f.FriAlpha[0].Limb, f.FriAlpha[1].Limb, f.FriPowResponse.Limb)
	for i := range f.FriBetas {
		a(f.FriBetas[i][0].Limb, f.FriBetas[i][1].Limb)
	}
	for i := range f.FriQueryIndices {
		a(f.FriQueryIndices[i].Limb)
	}
	return o
}

func friOK(com *ref.Common, f friVar) bool {
	c2 := *com
	c2.NumQueries = len(f.ch.Queries)
	return c2.VerifyFri(f.ch, &f.p.Open, [][]fr.Element{f.vk.Cap, f.p.WiresCap, f.p.ZsCap, f.p.QuotientCap}, f.p) == nil
}

// runFri executes the real FRI verifier once on the base instance with every
// variant as a lane and compares each verdict with the model's.
func (c *Ctx) runFri(key string, com *ref.Common, mode eng.Mode, opt eng.Options, base friVar, vars []friVar) {
	c2 := *com
	c2.NumQueries = len(base.ch.Queries)
	api, core := eng.New(mode, opt)
	defer core.Release()
	pv, vkv, cv := proofVars(base.p), vkVars(base.vk), chVars(base.ch)
	bs := append(sites(base.p, base.vk), chSites(base.ch)...)
	vs := append(siteVars(&pv, &vkv), chSiteVars(&cv)...)
	if len(bs) != len(vs) {
		panic("site lists differ")
	}
	ids := make([]int32, len(vars))
	for i, va := range vars {
		ids[i] = core.InputLane()
		as := append(sites(va.p, va.vk), chSites(va.ch)...)
		if len(as) != len(bs) {
			panic("variant has another shape: " + va.name)
		}
		n := 0
		for x := range as {
			if a := as[x].get(); a.Cmp(bs[x].get()) != 0 {
				core.SetAlt(vs[x], ids[i], a)
				n++
			}
		}
		if n == 0 {
			panic("variant changes nothing: " + va.name)
		}
	}
	res := core.Run(func(frontend.API) error {
		cd := commonData(&c2)
		chip := fri.NewChip(api, &cd, &cd.FriParams)
		chip.VerifyFriProof(chip.GetInstance(cv.PlonkZeta), chip.ToOpenings(pv.Proof.Openings), &cv.FriChallenges,
			[]variables.FriMerkleCap{vkv.ConstantSigmasCap, pv.Proof.WiresCap, pv.Proof.PlonkZsPartialProductsCap, pv.Proof.QuotientPolysCap}, &pv.Proof.OpeningProof)
		return nil
	})
	c.Account(res)
	if res.Panic != nil || res.Err != nil {
		c.Violate(key, base.name, "a well-formed FRI proof was refused: %s", clip(res.BaseFail))
		return
	}
	want := friOK(com, base)
	if res.BaseOK != want {
		c.Violate(key+"/"+base.name, map[string]any{"instance": base.name, "queries": base.ch.Queries}, "FRI proof (%s): accepted=%v, expected %v %s", base.name, res.BaseOK, want, clip(res.BaseFail))
	}
	c.Trace(1)
	alive := map[int32]bool{}
	for _, l := range res.Alive {
		alive[l] = true
	}
	for i, va := range vars {
		want := friOK(com, va)
		if alive[ids[i]] != want {
			c.Violate(key+"/"+va.name, map[string]any{"instance": base.name, "change": va.name, "queries": base.ch.Queries}, "FRI proof with %s: accepted=%v, expected %v", va.name, alive[ids[i]], want)
		}
		delete(alive, ids[i])
		c.Trace(1)
	}
	c.Count("variants", int64(len(vars)))
	if opt.Menu != nil && !want {
		for l := range alive {
			c.Violate(key+"/advice", map[string]any{"instance": base.name, "advice": core.Trace(l)}, "dishonest advice makes an invalid FRI proof (%s) pass", base.name)
			break
		}
	}
}

// base instance for given query values
func (s *friSetup) inst(d *ref.FriData, queries []ref.F, name string) friVar {
	p, vk := cloneProof(s.p), cloneVK(s.ci.VK())
	d.Assemble(p, vk, queries)
	ch := cloneCh(&s.d.Ch)
	ch.Queries = queries
	return friVar{name, p, vk, ch}
}

// foldWeight is the weight of eval j in the folded value of query idx at layer i.
func (s *friSetup) foldWeight(idx uint64, layer, j int) ref.E {
	n := s.lde()
	x := ref.Mul(7, ref.Pow(ref.PrimRoot(n), ref.Rev(idx, n)))
	for i := 0; i < layer; i++ {
		x = ref.Pow(x, 16)
		idx >>= 4
	}
	ev := make([]ref.E, 16)
	ev[j] = ref.E{1, 0}
	return ref.FoldEval(x, idx&15, 4, ev, s.d.Ch.FriBetas[layer])
}

// solve2 finds base-field x0,x1 with a0*x0 + a1*x1 = t (in the extension).
func solve2(a0, a1, t ref.E) (ref.F, ref.F, bool) {
	det := ref.Sub(ref.Mul(a0[0], a1[1]), ref.Mul(a1[0], a0[1]))
	if det == 0 {
		return 0, 0, false
	}
	di := ref.Inv(det)
	return ref.Mul(di, ref.Sub(ref.Mul(t[0], a1[1]), ref.Mul(a1[0], t[1]))), ref.Mul(di, ref.Sub(ref.Mul(a0[0], t[1]), ref.Mul(t[0], a0[1]))), true
}

// algebraic variants for query k: commitments are always consistent
func (s *friSetup) algebraVariants(queries []ref.F, k int, deep bool) []friVar {
	var out []friVar
	mask := uint64(1)<<s.lde() - 1
	idx := queries[k] & mask
	base := s.inst(s.d, queries, "")
	edit := func(name string, f func(v *friVar)) {
		nv := friVar{name, cloneProof(base.p), cloneVK(base.vk), cloneCh(base.ch)}
		f(&nv)
		out = append(out, nv)
	}
	data := func(name string, f func(d *ref.FriData)) {
		d := s.d.Clone()
		f(d)
		out = append(out, s.inst(d, queries, name))
	}
	step := 1
	if !deep {
		step = 3
	}
	// claimed openings, final polynomial, challenges (all queries)
	if k == 0 {
		bs := append(sites(base.p, base.vk), chSites(base.ch)...)
		for x, b := range bs {
			if b.F == nil {
				continue
			}
			n := b.Name
			sel := false
			for _, pre := range []string{"constants", "sigmas", "wires[", "zs[", "zsnext", "partials", "quotients", "final", "zeta", "frialpha", "fribeta", "query"} {
				if len(n) >= len(pre) && n[:len(pre)] == pre {
					sel = true
				}
			}
			if !sel {
				continue
			}
			edit(n+"+1", func(v *friVar) {
				as := append(sites(v.p, v.vk), chSites(v.ch)...)
				as[x].set(u(ref.Add(*as[x].F, 1)))
			})
		}
		// exchange of two openings
		edit("swap zs/zsnext", func(v *friVar) { v.p.Open.Zs[0], v.p.Open.ZsNext[0] = v.p.Open.ZsNext[0], v.p.Open.Zs[0] })
		edit("swap constants", func(v *friVar) {
			o := v.p.Open.Constants
			o[0], o[len(o)-1] = o[len(o)-1], o[0]
		})
		edit("swap wires/sigmas", func(v *friVar) { v.p.Open.Wires[0], v.p.Open.Sigmas[0] = v.p.Open.Sigmas[0], v.p.Open.Wires[0] })
	}
	// final polynomial wrong on query k only
	if len(base.p.FinalPoly) >= len(queries) {
		n := s.lde()
		poly := []ref.E{{1, 0}}
		dup := false
		for z, q := range queries {
			if z == k {
				continue
			}
			if q&mask == idx {
				dup = true
			}
			x := ref.Mul(7, ref.Pow(ref.PrimRoot(n), ref.Rev(q&mask, n)))
			for range s.com.Arity {
				x = ref.Pow(x, 16)
			}
			nx := make([]ref.E, len(poly)+1)
			for i, pc := range poly {
				nx[i+1] = ref.EAdd(nx[i+1], pc)
				nx[i] = ref.ESub(nx[i], ref.EScale(pc, x))
			}
			poly = nx
		}
		if !dup {
			edit(fmt.Sprintf("final polynomial wrong on query %d only", k), func(v *friVar) {
				for i := range poly {
					v.p.FinalPoly[i] = ref.EAdd(v.p.FinalPoly[i], poly[i])
				}
			})
		}
	}
	// initial leaves of this query
	for t := range s.d.Leaves {
		for e := 0; e < len(s.d.Leaves[t][idx]); e += step {
			data(fmt.Sprintf("query %d: tree %d element %d changed and recommitted", k, t, e), func(d *ref.FriData) {
				l := d.TouchLeaf(t, idx)
				l[e] = ref.Add(l[e], 1)
			})
		}
	}
	// layers
	pos := idx
	for li := range s.com.Arity {
		at := pos &^ 15
		w := int(pos & 15)
		for j := 0; j < 16; j++ {
			if !deep && j != w && j%5 != int(idx)%5 {
				continue
			}
			data(fmt.Sprintf("query %d: layer %d eval %d changed and recommitted", k, li, j), func(d *ref.FriData) {
				v := d.TouchLayer(li)
				v[at+uint64(j)] = ref.EAdd(v[at+uint64(j)], ref.E{0, 1})
			})
		}
		data(fmt.Sprintf("query %d: layer %d all evals but the queried one changed", k, li), func(d *ref.FriData) {
			v := d.TouchLayer(li)
			for j := uint64(0); j < 16; j++ {
				if int(j) != w {
					v[at+j] = ref.EAdd(v[at+j], ref.E{j + 1, 1})
				}
			}
		})
		// queried value wrong, folded value unchanged: only containment is violated
		o := (w + 1 + int(idx)%15) % 16
		if o == w {
			o = (w + 1) % 16
		}
		for ci := 0; ci < 2; ci++ {
			data(fmt.Sprintf("query %d: layer %d queried eval coefficient %d changed, fold kept", k, li, ci), func(d *ref.FriData) {
				v := d.TouchLayer(li)
				var dl ref.E
				dl[ci] = 1
				lw, lo := s.foldWeight(idx, li, w), s.foldWeight(idx, li, o)
				v[at+uint64(w)] = ref.EAdd(v[at+uint64(w)], dl)
				v[at+uint64(o)] = ref.ESub(v[at+uint64(o)], ref.EDiv(ref.EMul(dl, lw), lo))
			})
		}
		// fold wrong in one coefficient only
		for ci := 0; ci < 2; ci++ {
			data(fmt.Sprintf("query %d: layer %d fold wrong in coefficient %d", k, li, ci), func(d *ref.FriData) {
				v := d.TouchLayer(li)
				var dl ref.E
				dl[ci] = 1
				v[at+uint64(o)] = ref.EAdd(v[at+uint64(o)], ref.EDiv(dl, s.foldWeight(idx, li, o)))
			})
		}
		pos >>= 4
	}
	return out
}

func (s *friSetup) queryVal(idx uint64, hi int) ref.F {
	n := s.lde()
	switch hi % 4 {
	case 0:
		return idx
	case 1: // close to the modulus
		x := (ref.P-1)>>n<<n | idx
		if x >= ref.P {
			x -= 1 << n
		}
		return x
	case 2:
		return (0x9e3779b97f4a7c15%ref.P)>>n<<n | idx
	}
	return uint64(1)<<63 | idx
}

func init() {
	reg("C16", func(c *Ctx) {
		c.Assume("FRI instances of bounded size generated by a reference prover and changed in ways that keep every commitment consistent; folding challenges in the evaluation coset and zeta in the evaluation domain are excluded (unsatisfiable by design, negligible probability)")
		ss := friSetups(c.Thorough())
		c.Par(len(ss), func(i int) { ss[i].init() })
		type job struct {
			key     string
			s       *friSetup
			queries []ref.F
			k       int // algebra variants for query k (-1 none)
			att     int
			mode    eng.Mode
		}
		var jobs []job
		for si, s := range ss {
			n := s.lde()
			// every query index (all of them for small domains)
			stepN := uint64(1)
			if n > 8 {
				stepN = 1 << uint(n-5)
			} else if n > 5 && !c.Thorough() {
				stepN = 5
			}
			var cur []ref.F
			for idx := uint64(0); idx < 1<<n; idx += stepN {
				i := idx
				if stepN > 1 && n > 8 {
					i = (idx + idx*7/stepN) & (1<<n - 1)
				}
				cur = append(cur, s.queryVal(i, int(idx/stepN)))
				if len(cur) == 8 {
					jobs = append(jobs, job{caseKey(s.name, "index", idx), s, cur, -1, 0, eng.Native})
					cur = nil
				}
			}
			if len(cur) > 0 {
				jobs = append(jobs, job{caseKey(s.name, "index-rest"), s, cur, -1, 0, eng.Native})
			}
			jobs = append(jobs, job{caseKey(s.name, "plain"), s, []ref.F{s.queryVal(3, 1)}, -1, 0, eng.Plain})
			// changes, for each query of a three-query proof
			sets := 1
			if n <= 8 && s.com.NumWires < 100 {
				sets = 3
			}
			if c.Thorough() {
				sets = 16
			}
			for z := 0; z < sets; z++ {
				r := rng(si*100 + z)
				q := []ref.F{r.f(), r.f(), r.f()}
				for k := range q {
					jobs = append(jobs, job{caseKey(s.name, "changes", z, k), s, q, k, 0, eng.Native})
				}
			}
			if len(s.com.Arity) < 2 { // many queries
				r := rng(si + 5000)
				var q []ref.F
				for len(q) < 33 {
					q = append(q, r.f())
				}
				for _, k := range []int{8, 16, 28, 31, 32} {
					jobs = append(jobs, job{caseKey(s.name, "many queries", k), s, q, k, 0, eng.Native})
				}
			}
			na := 1
			if c.Thorough() {
				na = 12
			}
			for a := 1; a <= na; a++ {
				jobs = append(jobs, job{caseKey(s.name, "advice", a), s, []ref.F{s.queryVal(uint64(a*11), a)}, -1, a, eng.Native})
			}
		}
		c.Set("instances", len(jobs))
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			s := j.s
			var vars []friVar
			base := s.inst(s.d, j.queries, "honest")
			opt := eng.Options{}
			if j.k >= 0 {
				vars = s.algebraVariants(j.queries, j.k, len(j.queries) < 9 && s.com.NumWires < 100 && (c.Thorough() && len(s.com.Arity) < 3 || s.lde() <= 8))
				if len(j.queries) > 8 && len(vars) > 40 {
					vars = vars[len(vars)-40:]
				}
			}
			if j.att > 0 {
				// an invalid proof and dishonest advice
				all := s.algebraVariants(j.queries, 0, false)
				base = all[(j.att*7)%len(all)]
				opt = attack(eng.Small, 1, 0)
				opt.KeepTrace = true
				if !c.Thorough() {
					opt.To = 4000
				}
			}
			c.runFri(j.key, s.com, j.mode, opt, base, vars)
		})
		c.Sample(map[string]any{"instance": ss[1].name, "changes": names(ss[1].algebraVariants([]ref.F{12345, 777, 99}, 1, false))})
		_ = big.NewInt
	})
}

func names(v []friVar) []string {
	var o []string
	for _, x := range v {
		o = append(o, x.name)
	}
	return o
}
