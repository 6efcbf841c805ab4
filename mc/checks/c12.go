package checks

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"

	"verifmc/eng"
	"verifmc/ref"
)

var numbers = regexp.MustCompile(`\b[0-9]+\b`)

// gateSet enumerates parameterisations of every supported gate.
func gateSet(deep bool) []ref.Gate {
	m := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	gs := []ref.Gate{ref.GNoop(), ref.GPublicInput(), ref.GPoseidon(), ref.GPoseidonMds()}
	for n := 1; n <= m(5, 8); n++ {
		gs = append(gs, ref.GConstant(n))
	}
	for n := 1; n <= m(20, 30); n++ {
		gs = append(gs, ref.GArithmetic(n))
	}
	for n := 1; n <= m(10, 17); n++ {
		gs = append(gs, ref.GArithmeticExt(n))
	}
	for n := 1; n <= m(13, 22); n++ {
		gs = append(gs, ref.GMulExt(n))
	}
	for n := 1; n <= m(12, 32); n++ {
		for b := 2; b <= m(4, 8); b++ {
			gs = append(gs, ref.GBaseSum(n, b))
		}
	}
	gs = append(gs, ref.GBaseSum(63, 2), ref.GBaseSum(31, 4), ref.GBaseSum(4, 16), ref.GBaseSum(64, 2))
	for n := 1; n <= m(16, 67); n++ {
		gs = append(gs, ref.GExponentiation(n))
	}
	gs = append(gs, ref.GExponentiation(66), ref.GExponentiation(67))
	for b := 1; b <= m(4, 5); b++ {
		for cp := 1; cp <= m(4, 6); cp++ {
			for e := 0; e <= m(3, 4); e++ {
				if !deep && b*cp > 8 && e != 2 {
					continue
				}
				gs = append(gs, ref.GRandomAccess(b, cp, e))
			}
		}
	}
	for _, e := range []int{4, 5, 7, 8, 17} {
		gs = append(gs, ref.GRandomAccess(1, 1, e), ref.GRandomAccess(2, 3, e))
	}
	gs = append(gs, ref.GRandomAccess(1, 9, 2), ref.GRandomAccess(5, 1, 1))
	for n := 1; n <= m(14, 44); n++ {
		gs = append(gs, ref.GReducing(n))
	}
	gs = append(gs, ref.GReducing(43), ref.GReducing(44))
	for n := 1; n <= m(12, 33); n++ {
		gs = append(gs, ref.GReducingExt(n))
	}
	gs = append(gs, ref.GReducingExt(32), ref.GReducingExt(33))
	for b := 1; b <= m(4, 5); b++ {
		for d := 2; d <= 1<<b && d <= m(9, 17); d++ {
			gs = append(gs, ref.GCosetInterpolation(b, d))
		}
	}
	// plonky2 prints the raw words of the weights, which need not be canonical
	for b := 2; b <= m(4, 5); b++ {
		ws := ref.BaryWeights(b)
		for i := range ws {
			if ws[i] < 1<<32-1 {
				ws[i] += ref.P
			}
		}
		gs = append(gs, ref.GCosetInterpolationW(b, 2+b, ws))
	}
	return gs
}

func pihVar(h [4]ref.F) poseidon.GoldilocksHashOut {
	return poseidon.GoldilocksHashOut{v(h[0]), v(h[1]), v(h[2]), v(h[3])}
}

func init() {
	reg("C12", func(c *Ctx) {
		c.Assume("wires, constants and hash range over generic, boundary, all-zero, all-one and constraint-satisfying assignments; advice over the attack menu at one hint call per execution, for one representative parameterisation of each gate type")
		gs := gateSet(c.Thorough())
		c.Set("parameterisations", len(gs))
		type job struct {
			g    int
			fill int
			att  bool
		}
		var jobs []job
		seen := map[string]bool{}
		nf := 4
		if c.Thorough() {
			nf = 8
		}
		for i, g := range gs {
			for f := 0; f < nf; f++ {
				jobs = append(jobs, job{i, f, false})
			}
			if !seen[g.Name] || c.Thorough() && i%5 == 0 {
				seen[g.Name] = true
				jobs = append(jobs, job{i, 0, true})
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			g := gs[j.g]
			r := rng(j.g*31 + j.fill)
			nw, nk := g.Wires+int(r.next()%3), g.Consts+int(r.next()%2)
			h := [4]ref.F{r.f(), r.f(), r.f(), r.f()}
			w, kc := make([]ref.E, nw), make([]ref.E, nk)
			get := func() ref.E {
				switch j.fill {
				case 1:
					return ref.E{alphabet(32)[r.next()%32], alphabet(32)[r.next()%32]}
				case 3:
					return ref.E{ref.P - 1, ref.P - 1}
				case 5:
					return ref.E{1, 0}
				case 6:
					return ref.E{}
				}
				return r.e()
			}
			for x := range w {
				w[x] = get()
			}
			for x := range kc {
				kc[x] = get()
			}
			if j.fill == 2 && g.Fill != nil { // satisfying assignment
				wf, kf := make([]ref.F, nw), make([]ref.F, nk)
				for x := range wf {
					wf[x] = r.f()
				}
				for x := range kf {
					kf[x] = r.f()
				}
				g.Fill(kf, wf, h)
				for x := range wf {
					w[x] = ref.E{wf[x], 0}
				}
				for x := range kf {
					kc[x] = ref.E{kf[x], 0}
				}
			}
			want := g.Eval(kc, w, h)
			if len(want) != g.Num {
				panic("model: wrong number of constraints for " + g.ID)
			}
			if j.fill == 2 && g.Fill != nil {
				for _, x := range want {
					if x != (ref.E{}) {
						panic("model: Fill does not satisfy " + g.ID)
					}
				}
			}
			opt := eng.Options{}
			if j.att {
				opt = attack(eng.Small, 1, 0)
				if g.Name == "Poseidon" || g.Name == "PoseidonMds" {
					if !c.Thorough() {
						opt.To = 600
					}
				}
			}
			mode := eng.Native
			if i%17 == 0 && !j.att {
				mode = eng.Plain
			}
			c.Do(Case{Key: caseKey(g.Name, j.g, j.fill), Mode: mode, Opt: opt, Detail: map[string]any{"gate": g.ID, "wires": w, "constants": kc, "hash": h}, Define: func(api frontend.API) []Exp {
				p := gl.New(api)
				gate := gates.GateInstanceFromId(g.ID)
				wv, kv := ves(w), ves(kc)
				got := gate.EvalUnfiltered(api, p, *gates.NewEvaluationVars(kv, wv, pihVar(h)))
				if len(got) != len(want) {
					panic(fmt.Sprintf("%d constraints, expected %d", len(got), len(want)))
				}
				var es []Exp
				for x := range got {
					es = append(es, expE(caseKey("constraint", x), got[x], want[x])...)
				}
				// the caller's wires and constants keep their values
				for x := range wv {
					es = append(es, expE(caseKey("wire", x), wv[x], w[x])...)
				}
				for x := range kv {
					es = append(es, expE(caseKey("constant", x), kv[x], kc[x])...)
				}
				return es
			}})
		})
		c.Sample(gs[20].ID)
		c.Sample(gs[len(gs)-3].ID)
	})

	reg("C13", func(c *Ctx) {
		c.Assume("gate lists up to the stated length drawn from small gates; every partition of the list into contiguous groups")
		pool := []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GArithmetic(2), ref.GPublicInput(), ref.GBaseSum(3, 2), ref.GMulExt(1), ref.GReducing(2), ref.GRandomAccess(1, 1, 1)}
		maxG := 5
		if c.Thorough() {
			maxG = 7
		}
		type job struct {
			list, groups []int // groups: sizes
		}
		var jobs []job
		var comps func(n int, cur []int, f func([]int))
		comps = func(n int, cur []int, f func([]int)) {
			if n == 0 {
				f(append([]int(nil), cur...))
				return
			}
			for k := 1; k <= n; k++ {
				comps(n-k, append(cur, k), f)
			}
		}
		for n := 1; n <= maxG; n++ {
			for off := 0; off < len(pool); off++ {
				list := make([]int, n)
				for i := range list {
					list[i] = (off + i*(1+off%3)) % len(pool)
				}
				comps(n, nil, func(g []int) { jobs = append(jobs, job{list, g}) })
			}
		}
		// long lists, a few groupings
		for n := maxG + 1; n <= 18; n++ {
			list := make([]int, n)
			for i := range list {
				list[i] = (n + i*(1+n%3)) % len(pool)
			}
			ones := make([]int, n)
			for i := range ones {
				ones[i] = 1
			}
			for _, g := range [][]int{{n}, {n - 1, 1}, {1, n - 1}, {n / 2, n - n/2}, {2, n - 4, 2}, ones} {
				jobs = append(jobs, job{list, g})
			}
		}
		// gates with more constraints than any other
		big := len(pool)
		pool = append(pool, ref.GBaseSum(130, 2), ref.GPoseidon())
		for _, l := range [][]int{{big}, {0, big}, {big, 1, 2}, {big + 1}, {0, big + 1, big}} {
			jobs = append(jobs, job{l, []int{len(l)}})
			if len(l) > 1 {
				jobs = append(jobs, job{l, []int{1, len(l) - 1}})
			}
		}
		c.Set("gate_lists", len(jobs))
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			var common ref.Common
			nw, nk, nc := 0, 0, 0
			for _, x := range j.list {
				g := pool[x]
				common.Gates = append(common.Gates, g)
				nw, nk, nc = max(nw, g.Wires), max(nk, g.Consts), max(nc, g.Num)
			}
			at := 0
			for gi, sz := range j.groups {
				common.Groups = append(common.Groups, [2]int{at, at + sz})
				for y := 0; y < sz; y++ {
					common.SelIdx = append(common.SelIdx, gi)
				}
				at += sz
			}
			declared := nc + i%3
			for fill := 0; fill < 3; fill++ {
				r := rng(i*3 + fill)
				w, kc := make([]ref.E, nw), make([]ref.E, len(j.groups)+nk)
				for x := range w {
					w[x] = r.e()
				}
				for x := range kc {
					kc[x] = r.e()
					if x < len(j.groups) && fill == 1 { // rows selecting a gate, or none
						kc[x] = ref.E{[]ref.F{0, 1, 2, 3, 4, 5, 6, 7, 0xffffffff}[r.next()%9], 0}
					}
				}
				h := [4]ref.F{r.f(), r.f(), r.f(), r.f()}
				common.NumGateConstraints = declared
				want := common.GateConstraints(kc, w, h)
				opt := eng.Options{}
				if fill == 0 && i%40 == 7 {
					opt = attack(eng.Small, 1, 0)
				}
				c.Do(Case{Key: caseKey("filter", i, fill), Mode: eng.Native, Opt: opt, Detail: map[string]any{"gates": j.list, "groups": j.groups, "constants": kc}, Define: func(api frontend.API) []Exp {
					ch, _ := mkGatesChip(api, &common)
					kv, wv := ves(kc), ves(w)
					vars := gates.NewEvaluationVars(kv, wv, pihVar(h))
					got := ch.EvaluateGateConstraints(*vars)
					again := ch.EvaluateGateConstraints(*vars)
					if len(got) != declared || len(again) != declared {
						panic("wrong number of combined constraints")
					}
					var es []Exp
					for x := range got {
						es = append(es, expE(caseKey("combined", x), got[x], want[x])...)
						es = append(es, expE(caseKey("second evaluation", x), again[x], want[x])...)
					}
					for x := range kv {
						es = append(es, expE(caseKey("constant", x), kv[x], kc[x])...)
					}
					for x := range wv {
						es = append(es, expE(caseKey("wire", x), wv[x], w[x])...)
					}
					return es
				}})
				if fill == 0 && nc > 0 { // one constraint too few declared
					few := common
					few.NumGateConstraints = nc - 1
					c.Do(Case{Key: caseKey("toofew", i), Mode: eng.Native, Want: Refuse, Detail: j, Define: func(api frontend.API) []Exp {
						ch, _ := mkGatesChip(api, &few)
						ch.EvaluateGateConstraints(*gates.NewEvaluationVars(ves(kc), ves(w), pihVar(h)))
						return nil
					}})
				}
			}
		})
		c.Sample(map[string]any{"gates": jobs[len(jobs)-2].list, "groups": jobs[len(jobs)-2].groups})
	})

	reg("C14", func(c *Ctx) {
		c.Assume("behaviour of the parsed gate is compared at generic wires; parsing is repeated to expose dependence on map order")
		gs := gateSet(c.Thorough())
		reps := 40
		if c.Thorough() {
			reps = 400
		}
		// a gate is identified by its constraints at a generic point, with
		// enough wires for any of them
		evalID := func(id string, w, kc []ref.E, h [4]ref.F) (out []ref.E, refused any) {
			api, core := eng.New(eng.Native, eng.Options{})
			res := core.Run(func(frontend.API) error {
				gate := gates.GateInstanceFromId(id)
				if gate == nil {
					panic("nil gate")
				}
				for _, x := range gate.EvalUnfiltered(api, gl.New(api), *gates.NewEvaluationVars(ves(kc), ves(w), pihVar(h))) {
					out = append(out, ref.E{eng.Val(x[0].Limb).Uint64(), eng.Val(x[1].Limb).Uint64()})
				}
				return nil
			})
			c.Account(res)
			defer core.Release()
			if res.Panic == nil && !res.BaseOK {
				return nil, "unsatisfiable: " + res.BaseFail
			}
			return out, res.Panic
		}
		c.Par(len(gs), func(i int) {
			g := gs[i]
			r := rng(i + 5)
			w, kc := make([]ref.E, 400), make([]ref.E, 80)
			for x := range w {
				w[x] = r.e()
			}
			for x := range kc {
				kc[x] = r.e()
			}
			h := [4]ref.F{r.f(), r.f(), r.f(), r.f()}
			want := g.Eval(kc, w, h)
			n := reps
			if g.Name == "Poseidon" || g.Wires > 200 {
				n = reps / 8
			}
			for k := 0; k < n; k++ {
				var got []ref.E
				var ref2 any
				if k < 2 {
					got, ref2 = evalID(g.ID, w, kc, h)
					c.Trace(1)
					if ref2 != nil {
						c.Violate(caseKey("id", g.ID), g.ID, "identifier of a supported gate refused: %v", ref2)
						return
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						c.Violate(caseKey("id", g.ID), g.ID, "identifier mapped to a gate with other constraints")
						return
					}
					continue
				}
				// further calls: same type and parameters (cheap)
				var a string
				func() {
					defer func() {
						if p := recover(); p != nil {
							a = fmt.Sprint("panic ", p)
						}
					}()
					a = fmt.Sprintf("%T%+v", gates.GateInstanceFromId(g.ID), gates.GateInstanceFromId(g.ID))
				}()
				b := fmt.Sprintf("%T%+v", gates.GateInstanceFromId(g.ID), gates.GateInstanceFromId(g.ID))
				c.State(2)
				if a != b {
					c.Violate(caseKey("repeat", g.ID), []string{a, b}, "two calls with the same identifier differ")
					return
				}
			}
		})
		// identifiers that must be refused
		var bad []string
		for _, g := range gs {
			id := g.ID
			bad = append(bad, "X"+id, id+"X", id+" ", " "+id, strings.ToLower(id), strings.Replace(id, "Gate", "Gadget", 1), strings.Replace(id, "Gate", "", 1), id+id, "U32"+id, id+"<D=3>")
			for _, f := range [][2]string{{"<D=2>", "<D=3>"}, {"<D=2>", "<D=4>"}, {"<D=2>", "<D=1>"}, {"<D=2>", ""}, {"<WIDTH=12>", "<WIDTH=8>"}, {"<WIDTH=12>", "<WIDTH=16>"}, {"GoldilocksField", "BabyBear"},
				{": ", ": -"}, {": ", ": 99999999999999999999999"}, {": ", ": x"}, {": ", ":"}, {"num_ops", "num_op"}, {"degree: ", "degree: 99999999999999999999"}, {"{ num", "{num"}} {
				if strings.Contains(id, f[0]) {
					bad = append(bad, strings.Replace(id, f[0], f[1], 1))
				}
			}
			// every number in the identifier against values that cannot be meant
			for _, m := range numbers.FindAllStringIndex(id, -1) {
				pre, num, post := id[:m[0]], id[m[0]:m[1]], id[m[1]:]
				v, _ := new(big.Int).SetString(num, 10)
				put := func(x string) { bad = append(bad, pre+x+post) }
				put("")
				put("-" + num)
				put("+" + num)
				put(num + ".0")
				put("0x" + num)
				put(num + "e0")
				put("_" + num)
				put(num + "u")
				for _, sh := range []uint{64, 65, 72, 96, 128, 256} {
					put(new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), sh)).String())
				}
				if strings.HasSuffix(pre, "<D=") || strings.HasSuffix(pre, "<WIDTH=") {
					for x := int64(0); x < 300; x++ {
						if x != v.Int64() {
							put(fmt.Sprint(x))
						}
					}
					for sh := uint(8); sh < 80; sh++ {
						s := new(big.Int).Lsh(big.NewInt(1), sh)
						put(s.String())
						put(new(big.Int).Add(s, v).String())
						put(new(big.Int).Sub(s, v).String())
					}
				}
			}
			if g.Name == "CosetInterpolation" {
				for _, d := range []string{"degree: 0,", "degree: 1,"} {
					i := strings.Index(id, "degree: ")
					e := i + strings.Index(id[i:], ",") + 1
					bad = append(bad, id[:i]+d+id[e:])
				}
			}
		}
		bad = append(bad, "", "Gate", "LookupGate {num_slots: 40, lut_hash: []}", "LookupTableGate { num_slots: 26 }", "U32AddManyGate { num_addends: 3, num_ops: 5 }", "U32ArithmeticGate { num_ops: 3 }",
			"ComparisonGate { num_bits: 32, num_chunks: 16 }", "LowDegreeInterpolationGate { subgroup_bits: 4 }", "HighDegreeInterpolationGate { subgroup_bits: 4 }<D=2>", "SwitchGate { chunk_size: 4, num_copies: 2 }",
			"Gate: NoopGate", "NotANoopGate", "Poseidon2Gate("+"PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", "MonolithGate", "NoopGate\n", "\nNoopGate", "PoseidonGate", "PoseidonMdsGate")
		supported := map[string]bool{}
		for _, g := range gs {
			supported[g.ID] = true
		}
		n := 0
		for _, id := range bad {
			if supported[id] {
				continue
			}
			n++
			refused := false
			var got string
			func() {
				defer func() {
					if recover() != nil {
						refused = true
					}
				}()
				g := gates.GateInstanceFromId(id)
				if g == nil {
					refused = true
					return
				}
				got = fmt.Sprintf("%T", g)
			}()
			c.State(1)
			c.Trace(1)
			if !refused {
				c.Violate(caseKey("refuse", id), id, "an identifier that names no supported gate is mapped to %s", got)
				if c.Enough() {
					break
				}
			}
		}
		c.Set("refused_identifiers", n)
		c.Set("parameterisations", len(gs))
		c.Sample(bad[3])
		c.Sample(gs[7].ID)
	})
}
