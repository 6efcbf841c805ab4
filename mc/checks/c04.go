package checks

import (
	"math/big"

	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verifmc/eng"
	"verifmc/ref"
)

type qe = gl.QuadraticExtensionVariable

type extOp struct {
	name  string
	arity int
	do    func(p *gl.Chip, a []qe) qe
	def   func(a []ref.E) ref.E
	loose bool
	// operands for which the operation is unsatisfiable
	reject func(a []ref.E) bool
}

var extOps = []extOp{
	{name: "AddExtension", arity: 2, do: func(p *gl.Chip, a []qe) qe { return p.AddExtension(a[0], a[1]) }, def: func(a []ref.E) ref.E { return ref.EAdd(a[0], a[1]) }},
	{name: "SubExtension", arity: 2, do: func(p *gl.Chip, a []qe) qe { return p.SubExtension(a[0], a[1]) }, def: func(a []ref.E) ref.E { return ref.ESub(a[0], a[1]) }},
	{name: "MulExtension", arity: 2, do: func(p *gl.Chip, a []qe) qe { return p.MulExtension(a[0], a[1]) }, def: func(a []ref.E) ref.E { return ref.EMul(a[0], a[1]) }},
	{name: "AddExtensionNoReduce", arity: 2, loose: true, do: func(p *gl.Chip, a []qe) qe { return p.AddExtensionNoReduce(a[0], a[1]) }, def: func(a []ref.E) ref.E { return ref.EAdd(a[0], a[1]) }},
	{name: "SubExtensionNoReduce", arity: 2, loose: true, do: func(p *gl.Chip, a []qe) qe { return p.SubExtensionNoReduce(a[0], a[1]) }, def: func(a []ref.E) ref.E { return ref.ESub(a[0], a[1]) }},
	{name: "MulExtensionNoReduce", arity: 2, loose: true, do: func(p *gl.Chip, a []qe) qe { return p.MulExtensionNoReduce(a[0], a[1]) }, def: func(a []ref.E) ref.E { return ref.EMul(a[0], a[1]) }},
	{name: "ReduceExtension(SubNoReduce*)", arity: 3, do: func(p *gl.Chip, a []qe) qe {
		return p.ReduceExtension(p.AddExtensionNoReduce(p.SubExtensionNoReduce(a[0], a[1]), p.MulExtensionNoReduce(a[1], a[2])))
	}, def: func(a []ref.E) ref.E { return ref.EAdd(ref.ESub(a[0], a[1]), ref.EMul(a[1], a[2])) }},
	{name: "MulAddExtension", arity: 3, do: func(p *gl.Chip, a []qe) qe { return p.MulAddExtension(a[0], a[1], a[2]) }, def: func(a []ref.E) ref.E { return ref.EAdd(ref.EMul(a[0], a[1]), a[2]) }},
	{name: "MulAddExtensionNoReduce", arity: 3, loose: true, do: func(p *gl.Chip, a []qe) qe { return p.MulAddExtensionNoReduce(a[0], a[1], a[2]) }, def: func(a []ref.E) ref.E { return ref.EAdd(ref.EMul(a[0], a[1]), a[2]) }},
	{name: "SubMulExtension", arity: 3, do: func(p *gl.Chip, a []qe) qe { return p.SubMulExtension(a[0], a[1], a[2]) }, def: func(a []ref.E) ref.E { return ref.EMul(ref.ESub(a[0], a[1]), a[2]) }},
	{name: "ScalarMulExtension", arity: 2, do: func(p *gl.Chip, a []qe) qe { return p.ScalarMulExtension(a[0], a[1][0]) }, def: func(a []ref.E) ref.E { return ref.EScale(a[0], a[1][0]) }},
	{name: "InverseExtension", arity: 1, do: func(p *gl.Chip, a []qe) qe { r, _ := p.InverseExtension(a[0]); return r }, def: func(a []ref.E) ref.E { return ref.EInv(a[0]) }, reject: func(a []ref.E) bool { return a[0] == ref.E{} }},
	{name: "DivExtension", arity: 2, do: func(p *gl.Chip, a []qe) qe { r, _ := p.DivExtension(a[0], a[1]); return r }, def: func(a []ref.E) ref.E { return ref.EDiv(a[0], a[1]) }, reject: func(a []ref.E) bool { return a[1] == ref.E{} }},
}

func eAlphabet(n int) []ref.E {
	var out []ref.E
	s := alphabet(n)
	for _, a := range s {
		for _, b := range s {
			out = append(out, ref.E{a, b})
		}
	}
	return out
}

func eTuples(s []ref.E, n int) [][]ref.E {
	out := [][]ref.E{{}}
	for i := 0; i < n; i++ {
		var nx [][]ref.E
		for _, t := range out {
			for _, x := range s {
				nx = append(nx, append(append([]ref.E(nil), t...), x))
			}
		}
		out = nx
	}
	return out
}

func mkE(t []ref.E, mask int) []qe {
	a := make([]qe, len(t))
	for i := range t {
		if mask>>uint(i)&1 == 1 {
			a[i] = ke(t[i])
		} else {
			a[i] = ve(t[i])
		}
	}
	return a
}

func loosen(es []Exp, loose bool) []Exp {
	if loose {
		for i := range es {
			es[i].ModP = true
		}
	}
	return es
}

// forE spreads work over cores in blocks.
func init() {
	reg("C04", func(c *Ctx) {
		c.Assume("operands range over an alphabet of boundary and generic elements; advice over the attack menu at one (pairs: two) hint calls")
		nu, nb, nt := 12, 5, 3
		if c.Thorough() {
			nu, nb, nt = 24, 8, 4
		}
		type job struct {
			op   extOp
			mode eng.Mode
			t    []ref.E
			mask int
			att  int
		}
		var jobs []job
		for _, op := range extOps {
			al := eAlphabet([]int{0, nu, nb, nt}[op.arity])
			ts := eTuples(al, op.arity)
			for ti, t := range ts {
				for _, m := range modes {
					if m == eng.Plain && ti%5 != 0 {
						continue
					}
					masks := []int{0}
					if op.arity > 1 && m == eng.Native {
						masks = []int{0, 1, 2}
					}
					for _, mask := range masks {
						a := 0
						if mask == 0 && m == eng.Native {
							a = 1
							if ti%9 == 0 || c.Thorough() && ti%3 == 0 {
								a = 2
							}
						}
						jobs = append(jobs, job{op, m, t, mask, a})
					}
				}
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			var opt eng.Options
			switch j.att {
			case 1:
				opt = attack(eng.Small, 1, 0)
			case 2:
				opt = attack(eng.Full, 2, 2)
			}
			want := Accept
			if j.op.reject != nil && j.op.reject(j.t) {
				want = Reject
				opt = attack(eng.Full, 2, 0)
			}
			if j.op.loose {
				opt = eng.Options{}
			}
			c.Do(Case{Key: caseKey(j.op.name, j.t, j.mask), Mode: j.mode, Opt: opt, Want: want, Detail: map[string]any{"op": j.op.name, "operands": j.t, "constants": j.mask},
				Define: func(api frontend.API) []Exp {
					p := gl.New(api)
					a := mkE(j.t, j.mask)
					r := j.op.do(p, a)
					if want != Accept {
						return nil
					}
					es := loosen(expE("result", r, j.op.def(j.t)), j.op.loose)
					for x := range a {
						es = append(es, expE("operand", a[x], j.t[x])...)
					}
					return es
				}})
		})
		c.Sample(map[string]any{"op": "SubMulExtension", "operands": []ref.E{{0, ref.P - 1}, {ref.P - 1, 1}, {1 << 32, 2}}})
		// inverse flags
		for _, a := range eAlphabet(8) {
			a := a
			if a == (ref.E{}) {
				continue
			}
			c.Do(Case{Key: caseKey("InverseExtension-flag", a), Mode: eng.Native, Opt: attack(eng.Small, 1, 0), Want: Accept, Detail: a, Define: func(api frontend.API) []Exp {
				_, has := gl.New(api).InverseExtension(ve(a))
				_, has2 := gl.New(api).DivExtension(ve(ref.E{3, 4}), ve(a))
				return []Exp{{Name: "hasInv", V: has, Want: u(1)}, {Name: "hasInv", V: has2, Want: u(1)}}
			}})
		}
		// exponentiation
		var exps []uint64
		lim := uint64(70)
		if c.Thorough() {
			lim = 600
		}
		for e := uint64(0); e <= lim; e++ {
			exps = append(exps, e)
		}
		for b := uint(6); b < 64; b++ {
			exps = append(exps, 1<<b, 1<<b-1, 1<<b+1)
		}
		exps = append(exps, ref.P-1, ref.P, ref.P-2, 1<<64-1, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555)
		bases := []ref.E{{0, 0}, {1, 0}, {0, 1}, {ref.P - 1, 0}, {ref.P - 1, ref.P - 1}, {0x123456789abcdef, 0xfedcba987654321}}
		c.Par(len(exps), func(i int) {
			for bi, b := range bases {
				b := b
				opt := eng.Options{}
				if bi == len(bases)-1 && (exps[i] < 20 || c.Thorough()) {
					opt = attack(eng.Small, 1, 0)
				}
				c.Do(Case{Key: caseKey("ExpExtension", b, exps[i]), Mode: eng.Native, Opt: opt, Want: Accept, Detail: map[string]any{"base": b, "exponent": exps[i]},
					Define: func(api frontend.API) []Exp {
						return expE("power", gl.New(api).ExpExtension(ve(b), exps[i]), ref.EPow(b, exps[i]))
					}})
			}
		})
		// inner products, reduction by powers: every length, every term pattern over a small alphabet
		small := []ref.E{{0, 0}, {1, 0}, {ref.P - 1, ref.P - 1}, {0x123456789abcdef, 1 << 32}}
		maxLen := 4
		if c.Thorough() {
			maxLen = 5
		}
		for n := 0; n <= maxLen; n++ {
			ts := eTuples(small, n)
			c.Par(len(ts), func(i int) {
				t := ts[i]
				opt := eng.Options{}
				if i%16 == 5 {
					opt = attack(eng.Small, 1, 0)
				}
				for _, sc := range []ref.E{{0, 0}, {1, 0}, {7, ref.P - 1}, {ref.P - 1, 12345}} {
					sc := sc
					c.Do(Case{Key: caseKey("ReduceWithPowers", t, sc), Mode: eng.Native, Opt: opt, Want: Accept, Detail: map[string]any{"terms": t, "scalar": sc},
						Define: func(api frontend.API) []Exp {
							in := ves(t)
							es := expE("sum", gl.New(api).ReduceWithPowers(in, ve(sc)), ref.EReduceWithPowers(t, sc))
							for x := range in {
								es = append(es, expE("term", in[x], t[x])...)
							}
							return es
						}})
				}
				if n%2 == 0 {
					for _, k0 := range []ref.F{0, 1, 7, ref.P - 1} {
						for _, acc := range []ref.E{{0, 0}, {ref.P - 1, 5}} {
							k0, acc := k0, acc
							want := acc
							for x := 0; x+1 < n; x += 2 {
								want = ref.EAdd(want, ref.EScale(ref.EMul(t[x], t[x+1]), k0))
							}
							c.Do(Case{Key: caseKey("InnerProductExtension", t, k0, acc), Mode: eng.Native, Opt: opt, Want: Accept, Detail: map[string]any{"terms": t, "constant": k0, "acc": acc},
								Define: func(api frontend.API) []Exp {
									var pr [][2]qe
									for x := 0; x+1 < n; x += 2 {
										pr = append(pr, [2]qe{ve(t[x]), ve(t[x+1])})
									}
									return expE("inner", gl.New(api).InnerProductExtension(v(k0), ve(acc), pr), want)
								}})
						}
					}
				}
			})
		}
		// long sums: no overflow for the lengths the verifier uses
		for _, n := range []int{16, 64, 137, 300} {
			var t []ref.E
			for i := 0; i < n; i++ {
				t = append(t, ref.E{ref.P - 1, ref.P - 1})
			}
			w := ref.E{ref.P - 1, ref.P - 1}
			for i := 0; i < n; i++ {
				w = ref.EAdd(w, ref.EMul(t[i], t[i]))
			}
			c.Do(Case{Key: caseKey("long", n), Mode: eng.Native, Want: Accept, Detail: n, Define: func(api frontend.API) []Exp {
				var pr [][2]qe
				for x := range t {
					pr = append(pr, [2]qe{ve(t[x]), ve(t[x])})
				}
				p := gl.New(api)
				es := expE("inner", p.InnerProductExtension(v(1), ve(ref.E{ref.P - 1, ref.P - 1}), pr), w)
				return append(es, expE("powers", p.ReduceWithPowers(ves(t), ve(ref.E{ref.P - 1, ref.P - 1})), ref.EReduceWithPowers(t, ref.E{ref.P - 1, ref.P - 1}))...)
			}})
		}
		// zero test, lookups, equality
		for _, a := range eAlphabet(9) {
			a := a
			z := uint64(0)
			if a == (ref.E{}) {
				z = 1
			}
			c.Do(Case{Key: caseKey("IsZero", a), Mode: eng.Native, Want: Accept, Detail: a, Define: func(api frontend.API) []Exp {
				return []Exp{{Name: "isZero", V: gl.New(api).IsZero(ve(a)), Want: u(z)}}
			}})
			for _, b := range eAlphabet(5) {
				b := b
				want := Reject
				if a == b {
					want = Accept
				}
				c.Do(Case{Key: caseKey("AssertIsEqualExtension", a, b), Mode: eng.Native, Want: want, Detail: []ref.E{a, b}, Define: func(api frontend.API) []Exp {
					gl.New(api).AssertIsEqualExtension(ve(a), ve(b))
					return nil
				}})
			}
		}
		q := []ref.E{{1, 2}, {3, 4}, {ref.P - 1, 6}, {7, ref.P - 2}}
		for bit := 0; bit < 4; bit++ {
			b0, b1 := bit&1, bit>>1
			c.Do(Case{Key: caseKey("Lookup", bit), Mode: eng.Native, Want: Accept, Detail: bit, Define: func(api frontend.API) []Exp {
				p := gl.New(api)
				es := expE("lookup", p.Lookup(eng.NewVar(b0), ve(q[0]), ve(q[1])), q[b0])
				return append(es, expE("lookup2", p.Lookup2(eng.NewVar(b0), eng.NewVar(b1), ve(q[0]), ve(q[1]), ve(q[2]), ve(q[3])), q[bit])...)
			}})
		}
		// range check of both coordinates
		for _, x := range []*big.Int{ref.PBig, pow2(64), new(big.Int).Sub(frModulus, big.NewInt(1)), new(big.Int).Add(ref.PBig, u(5))} {
			for pos := 0; pos < 2; pos++ {
				x, pos := x, pos
				c.Do(Case{Key: caseKey("RangeCheckQE", x, pos), Mode: eng.Native, Opt: attack(eng.Full, 2, 0), Want: Reject, Detail: x.String(), Define: func(api frontend.API) []Exp {
					e := ve(ref.E{5, 6})
					e[pos] = vb(x)
					gl.New(api).RangeCheckQE(e)
					return nil
				}})
			}
		}
	})

	reg("C05", func(c *Ctx) {
		small := []ref.E{{0, 0}, {1, 0}, {ref.P - 1, ref.P - 1}, {0x123456789abcdef, 1 << 32}}
		if c.Thorough() {
			small = append(small, ref.E{0, 1}, ref.E{1<<32 - 1, ref.P - 1<<32})
		}
		ts := eTuples(small, 4)
		type aop struct {
			name string
			do   func(p *gl.Chip, a, b gl.QuadraticExtensionAlgebraVariable) gl.QuadraticExtensionAlgebraVariable
			def  func(a, b ref.A) ref.A
		}
		ops := []aop{
			{"AddExtensionAlgebra", func(p *gl.Chip, a, b gl.QuadraticExtensionAlgebraVariable) gl.QuadraticExtensionAlgebraVariable {
				return p.AddExtensionAlgebra(a, b)
			}, ref.AAdd},
			{"SubExtensionAlgebra", func(p *gl.Chip, a, b gl.QuadraticExtensionAlgebraVariable) gl.QuadraticExtensionAlgebraVariable {
				return p.SubExtensionAlgebra(a, b)
			}, ref.ASub},
			{"MulExtensionAlgebra", func(p *gl.Chip, a, b gl.QuadraticExtensionAlgebraVariable) gl.QuadraticExtensionAlgebraVariable {
				return p.MulExtensionAlgebra(a, b)
			}, ref.AMul},
			{"ScalarMulExtensionAlgebra", func(p *gl.Chip, a, b gl.QuadraticExtensionAlgebraVariable) gl.QuadraticExtensionAlgebraVariable {
				return p.ScalarMulExtensionAlgebra(a[0], b)
			}, func(a, b ref.A) ref.A { return ref.AScale(a[0], b) }},
		}
		c.Par(len(ts)*len(ops), func(i int) {
			t, op := ts[i/len(ops)], ops[i%len(ops)]
			a, b := ref.A{t[0], t[1]}, ref.A{t[2], t[3]}
			opt := eng.Options{}
			if (i/len(ops))%7 == 3 || c.Thorough() {
				opt = attack(eng.Small, 1, 0)
			}
			for _, m := range modes {
				if m == eng.Plain && i%9 != 0 {
					continue
				}
				c.Do(Case{Key: caseKey(op.name, t), Mode: m, Opt: opt, Want: Accept, Detail: t, Define: func(api frontend.API) []Exp {
					return expA("result", op.do(gl.New(api), va(a), va(b)), op.def(a, b))
				}})
			}
		})
		c.Sample(map[string]any{"op": "MulExtensionAlgebra", "operands": ts[len(ts)-1]})
		// partial interpolation: every domain size up to 16 in every split into two and three parts; full
		// interpolation agrees with evaluating the polynomial
		maxN := 5
		if c.Thorough() {
			maxN = 9
		}
		type pj struct{ n, cut, variant int }
		var pjs []pj
		for n := 1; n <= maxN; n++ {
			for cut := 0; cut < n; cut++ {
				for vr := 0; vr < 4; vr++ {
					pjs = append(pjs, pj{n, cut, vr})
				}
			}
		}
		for _, n := range []int{8, 16} {
			pjs = append(pjs, pj{n, n / 2, 3}, pj{n, 0, 2})
		}
		c.Par(len(pjs), func(i int) {
			j := pjs[i]
			r := rng(1000 + i)
			var dom, w []ref.F
			var vals []ref.A
			for x := 0; x < j.n; x++ {
				switch j.variant {
				case 0:
					dom = append(dom, ref.F(x))
				default:
					dom = append(dom, ref.Mul(7, ref.Pow(ref.PrimRoot(4), uint64(x))))
				}
				e := ref.A{r.e(), r.e()}
				if j.variant == 1 {
					e = ref.A{{ref.P - 1, ref.P - 1}, {ref.P - 1, ref.P - 1}}
				}
				vals = append(vals, e)
			}
			for x := range dom {
				p := ref.F(1)
				for y := range dom {
					if x != y {
						p = ref.Mul(p, ref.Sub(dom[x], dom[y]))
					}
				}
				w = append(w, ref.Inv(p))
			}
			point := ref.A{r.e(), r.e()}
			if j.variant == 2 { // the point is a domain element
				point = ref.A{{dom[j.n-1], 0}, {}}
			}
			ie, ip := ref.A{}, ref.A{{1, 0}, {}}
			if j.variant == 3 {
				ie, ip = ref.A{r.e(), r.e()}, ref.A{r.e(), r.e()}
			}
			we, wp := ref.PartialInterpolate(dom, vals, w, point, ie, ip)
			opt := eng.Options{}
			if j.n <= 2 {
				opt = attack(eng.Small, 1, 0)
			}
			c.Do(Case{Key: caseKey("PartialInterpolate", j), Mode: eng.Native, Opt: opt, Want: Accept, Detail: map[string]any{"n": j.n, "split": j.cut, "variant": j.variant}, Define: func(api frontend.API) []Exp {
				p := gl.New(api)
				conv := func(f []ref.F) (o []goldilocks.Element) {
					for _, x := range f {
						o = append(o, goldilocks.NewElement(x))
					}
					return
				}
				var vv []gl.QuadraticExtensionAlgebraVariable
				for _, x := range vals {
					vv = append(vv, va(x))
				}
				e, pr := va(ie), va(ip)
				if j.cut > 0 {
					e, pr = p.PartialInterpolateExtAlgebra(conv(dom[:j.cut]), vv[:j.cut], conv(w[:j.cut]), va(point), e, pr)
				}
				e, pr = p.PartialInterpolateExtAlgebra(conv(dom[j.cut:]), vv[j.cut:], conv(w[j.cut:]), va(point), e, pr)
				return append(expA("eval", e, we), expA("partialProduct", pr, wp)...)
			}})
			// independent meaning: at a domain point the value is returned
			if j.variant == 2 && we != vals[j.n-1] {
				c.Violate("reference", j, "reference interpolation is inconsistent")
			}
		})
		// inconsistent lengths are refused
		for _, d := range [][3]int{{0, 0, 0}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {2, 0, 2}, {2, 3, 2}, {2, 2, 3}, {3, 2, 2}} {
			d := d
			c.Do(Case{Key: caseKey("PartialInterpolate-lengths", d), Mode: eng.Native, Want: Refuse, Detail: d, Define: func(api frontend.API) []Exp {
				vv := make([]gl.QuadraticExtensionAlgebraVariable, d[1])
				for x := range vv {
					vv[x] = va(ref.A{{1, 2}, {3, 4}})
				}
				z := va(ref.A{{1, 0}, {}})
				gl.New(api).PartialInterpolateExtAlgebra(make([]goldilocks.Element, d[0]), vv, make([]goldilocks.Element, d[2]), z, z, z)
				return nil
			}})
		}
	})

	reg("C06", func(c *Ctx) {
		maxSub := uint64(14)
		if c.Thorough() {
			maxSub = 20
		}
		for n := uint64(0); n <= 32; n++ {
			var g ref.F
			func() {
				defer func() {
					if p := recover(); p != nil {
						c.Violate(caseKey("root", n), n, "PrimitiveRootOfUnity(%d) refused: %v", n, p)
					}
				}()
				e := gl.PrimitiveRootOfUnity(n)
				g = e.Uint64()
			}()
			c.State(1)
			c.Trace(1)
			if g != ref.PrimRoot(int(n)) {
				c.Violate(caseKey("root", n), n, "PrimitiveRootOfUnity(%d) = %d, expected %d", n, g, ref.PrimRoot(int(n)))
				continue
			}
			// exact order
			x := g
			for i := uint64(0); i < n; i++ {
				c.Trans(1)
				if x == 1 {
					c.Violate(caseKey("order", n), n, "root of order 2^%d has smaller order", n)
				}
				x = ref.Mul(x, x)
			}
			if x != 1 {
				c.Violate(caseKey("order", n), n, "root of order 2^%d has larger order", n)
			}
			if n <= maxSub {
				sg := gl.TwoAdicSubgroup(n)
				if len(sg) != 1<<n {
					c.Violate(caseKey("subgroup", n), n, "TwoAdicSubgroup(%d) has %d elements", n, len(sg))
					continue
				}
				w := ref.F(1)
				for i := range sg {
					c.State(1)
					c.Trans(1)
					if sg[i].Uint64() != w {
						c.Violate(caseKey("subgroup", n, i), n, "TwoAdicSubgroup(%d)[%d] = %d, expected %d", n, i, sg[i].Uint64(), w)
						break
					}
					w = ref.Mul(w, g)
				}
				c.Trace(int64(len(sg)))
			}
		}
		// calls do not influence later calls: all pairs of sizes
		for a := uint64(0); a <= 10; a++ {
			for b := uint64(0); b <= 10; b++ {
				gl.PrimitiveRootOfUnity(a)
				sg := gl.TwoAdicSubgroup(a)
				for i := range sg {
					sg[i].SetUint64(99) // the caller owns the result
				}
				e := gl.PrimitiveRootOfUnity(b)
				sb := gl.TwoAdicSubgroup(b)
				c.State(1)
				c.Trans(4)
				if e.Uint64() != ref.PrimRoot(int(b)) || len(sb) != 1<<b || sb[0].Uint64() != 1 || (b > 0 && sb[1].Uint64() != ref.PrimRoot(int(b))) {
					c.Violate(caseKey("history", a, b), []uint64{a, b}, "size %d after size %d gives a different result", b, a)
				}
			}
		}
		for _, n := range []uint64{33, 34, 40, 63, 64, 65, 128, 1 << 32, 1<<64 - 1} {
			for k, f := range []func(){func() { gl.PrimitiveRootOfUnity(n) }, func() { gl.TwoAdicSubgroup(n) }} {
				if k == 1 && c.Enough0() {
					continue // listing an oversized subgroup would not end
				}
				refused := false
				func() {
					defer func() { refused = recover() != nil }()
					f()
				}()
				c.State(1)
				c.Trace(1)
				if !refused {
					c.Violate(caseKey("oversize", n), n, "logarithmic size %d beyond the two-adicity is not refused", n)
				}
			}
		}
		g7 := gl.MULTIPLICATIVE_GROUP_GENERATOR
		if g7.Uint64() != 7 || gl.TWO_ADICITY != 32 || gl.MODULUS.Cmp(ref.PBig) != 0 {
			c.Violate("constants", nil, "generator, two-adicity or modulus differ from plonky2's")
		}
		c.Sample(map[string]any{"n": 13, "root": ref.PrimRoot(13)})
		c.Set("bounds", map[string]any{"roots": "all 0..32", "subgroups": maxSub})
	})
}
