package checks

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verifmc/eng"
	"verifmc/ref"
)

// C02: every base-field operation under every advice of the attack menu.
func init() {
	reg("C02", func(c *Ctx) {
		c.Assume("advice is drawn from the attack menu: all solutions of the division identity with wrapped (x+jR), shifted, degenerate and solved quotient/remainder, plus identity-violating and digit-level answers, at up to two hint calls of one execution (three in the thorough tier)")
		n1, n2, n3 := 20, 8, 4
		level := eng.Full
		devs := 2
		if c.Thorough() {
			n1, n2, n3 = 32, 16, 8
			level, devs = eng.Deep, 3
		}
		c.Set("bounds", map[string]any{"operands": []int{n1, n2, n3}, "deviations": devs})
		type job struct {
			op   fieldOp
			mode eng.Mode
			t    []ref.F
		}
		var jobs []job
		for _, op := range fieldOps {
			if op.loose {
				continue
			}
			for _, m := range modes {
				for _, t := range tuples(alphabet([]int{0, n1, n2, n3}[op.arity]), op.arity) {
					jobs = append(jobs, job{op, m, t})
				}
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			opt := attack(level, devs, 0)
			if j.mode == eng.Plain {
				opt = attack(eng.Small, 2, 3)
				if i%4 != 0 && !c.Thorough() { // single deviations on all tuples, pairs on a quarter of them
					opt.MaxDevs = 1
				}
			}
			c.Do(Case{Key: caseKey(j.op.name, j.t), Mode: j.mode, Opt: opt, Want: Accept, Detail: map[string]any{"op": j.op.name, "operands": j.t},
				Define: func(api frontend.API) []Exp {
					p := gl.New(api)
					if j.op.name == "Inverse" {
						r, has := p.Inverse(v(j.t[0]))
						if j.t[0] == 0 {
							return []Exp{{Name: "hasInverse", V: has, Want: u(0)}}
						}
						return []Exp{{Name: "hasInverse", V: has, Want: u(1)}, expF("inverse", r, ref.Inv(j.t[0]))}
					}
					return []Exp{expF("result", j.op.do(p, mkArgs(j.t, 0)), j.op.def(j.t))}
				}})
		})
		// reductions: every width that is not refused must be sound for every boundary value
		var wj []uint64
		for w := uint64(16); w <= 256; w += 16 {
			wj = append(wj, w)
		}
		for w := uint64(1); w <= 254; w += 3 {
			wj = append(wj, w)
		}
		c.Par(len(wj), func(i int) {
			w := wj[i]
			vals := reduceValues(min64(w, 176), c.Thorough())
			step := 1
			if !c.Thorough() {
				step = 1 + len(vals)/24
			}
			for x := 0; x < len(vals); x += step {
				val := vals[x]
				for _, m := range modes {
					lv := level
					dv := devs
					if m == eng.Plain {
						lv, dv = eng.Small, 1
					}
					refused := c.DoMaybeRefuse(Case{Key: caseKey("ReduceWithMaxBits", w, val), Mode: m, Opt: attack(lv, dv, 0), Want: Accept, Detail: map[string]any{"width": w, "value": val.String()},
						Define: func(api frontend.API) []Exp {
							return []Exp{expF("result", gl.New(api).ReduceWithMaxBits(vb(val), w), ref.ModP(val))}
						}}, w > 176)
					if refused {
						c.Count("refused_widths", 1)
					}
				}
			}
		})
		for _, val := range reduceValues(144, c.Thorough()) {
			val := val
			c.Do(Case{Key: caseKey("Reduce", val), Mode: eng.Native, Opt: attack(level, devs, 0), Want: Accept, Detail: val.String(),
				Define: func(api frontend.API) []Exp { return []Exp{expF("result", gl.New(api).Reduce(vb(val)), ref.ModP(val))} }})
		}
		// values beyond the stated width: whatever survives must still be the right remainder
		tops := []*big.Int{new(big.Int).Sub(frModulus, big.NewInt(1)), new(big.Int).Sub(frModulus, ref.PBig), new(big.Int).Lsh(big.NewInt(1), 253), new(big.Int).Lsh(big.NewInt(1), 209)}
		for _, val := range tops {
			val := val
			api, core := eng.New(eng.Native, withTrace(attack(level, devs, 0)))
			var out gl.Variable
			res := core.Run(func(frontend.API) error { out = gl.New(api).Reduce(vb(val)); return nil })
			c.Account(res)
			c.Trace(1)
			for _, l := range res.Alive {
				if got := core.LaneVal(out.Limb, l); got.Cmp(u(ref.ModP(val))) != 0 {
					c.Violate(caseKey("Reduce-oversized", val), core.Trace(l), "advice makes the reduction of an oversized value return %s", got)
				}
			}
			core.Release()
		}
		// chains: deviations in one operation compensated in a later one
		chainCases(c, level)
		c.Sample(map[string]any{"op": "MulAdd", "operands": []ref.F{1, ref.P - 1, 1}, "menu": menuSample()})
	})
}

func menuSample() []string {
	s := &eng.HintSite{NbOut: 2, In: []*big.Int{u(1), u(ref.P - 1), u(1)}, Honest: []*big.Int{u(1), u(0)}}
	var out []string
	for _, m := range eng.Menu(eng.Full)(s) {
		out = append(out, m[0].String()+"|"+m[1].String())
	}
	return out
}

func withTrace(o eng.Options) eng.Options { o.KeepTrace = true; return o }

// DoMaybeRefuse is Do, except that the construction may be refused when mayRefuse is set.
func (c *Ctx) DoMaybeRefuse(cs Case, mayRefuse bool) bool {
	if mayRefuse {
		api, core := eng.New(cs.Mode, eng.Options{})
		res := core.Run(func(frontend.API) error { cs.Define(api); return nil })
		core.Release()
		if res.Panic != nil || res.Err != nil {
			c.Account(res)
			c.Trace(1)
			return true
		}
	}
	c.Do(cs)
	return false
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// chainCases runs compositions of two operations with up to two deviations.
func chainCases(c *Ctx, level eng.MenuLevel) {
	var ops []fieldOp
	for _, o := range fieldOps {
		if !o.loose {
			ops = append(ops, o)
		}
	}
	vals := []ref.F{0, 1, ref.P - 1, 1<<32 - 1}
	c.Par(len(ops)*len(ops), func(i int) {
		a, b := ops[i/len(ops)], ops[i%len(ops)]
		for _, t := range tuples(vals, 2) {
			t := t
			in := []ref.F{t[0], t[1], 5}
			r1 := ref.F(0)
			if a.name == "Inverse" && in[0] == 0 {
				continue
			}
			r1 = a.def(in[:a.arity])
			in2 := []ref.F{r1, t[1], r1}
			if b.name == "Inverse" && r1 == 0 {
				continue
			}
			c.Do(Case{Key: caseKey("chain", a.name, b.name, t), Mode: eng.Native, Opt: attack(eng.Small, 2, 0), Want: Accept, Detail: map[string]any{"ops": []string{a.name, b.name}, "operands": in},
				Define: func(api frontend.API) []Exp {
					p := gl.New(api)
					x := a.do(p, mkArgs(in, 0)[:a.arity])
					y := b.do(p, []gl.Variable{x, v(t[1]), x}[:b.arity])
					return []Exp{expF("first", x, r1), expF("second", y, b.def(in2[:b.arity]))}
				}})
		}
	})
}
