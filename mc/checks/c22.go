package checks

import (
	"fmt"
	"math/big"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"

	"verifmc/eng"
	"verifmc/ref"
)

// gateInstances: one circuit per gate kind (small parameters).
func gateInstances() []*instance {
	base := func(g ...ref.Gate) []ref.Gate { return append([]ref.Gate{ref.GNoop(), ref.GPublicInput()}, g...) }
	mk := func(n string, qdf int, groups []int, g ...ref.Gate) *instance {
		return gen("gate-"+n, base(g...), groups, 4, 3, 1, 1, 1, 10, qdf, 4, 0)
	}
	return []*instance{
		mk("constant", 8, []int{2, 1}, ref.GConstant(3)),
		mk("arithmetic", 8, []int{3}, ref.GArithmetic(4)),
		mk("arithmetic-ext", 8, []int{3}, ref.GArithmeticExt(2)),
		mk("mul-ext", 8, []int{2, 1}, ref.GMulExt(3)),
		mk("basesum2", 8, []int{2, 1}, ref.GBaseSum(9, 2)),
		mk("basesum4", 8, []int{3}, ref.GBaseSum(5, 4)),
		mk("exponentiation", 8, []int{2, 1}, ref.GExponentiation(5)),
		mk("randomaccess", 8, []int{2, 1}, ref.GRandomAccess(2, 2, 2)),
		mk("randomaccess-no-extra", 8, []int{2, 1}, ref.GRandomAccess(1, 3, 0)),
		mk("reducing", 8, []int{3}, ref.GReducing(4)),
		mk("reducing-ext", 8, []int{2, 1}, ref.GReducingExt(3)),
		mk("poseidon-mds", 8, []int{3}, ref.GPoseidonMds()),
		mk("coset-interpolation", 8, []int{2, 1}, ref.GCosetInterpolation(2, 3)),
		mk("poseidon", 8, []int{2, 1}, ref.GPoseidon()),
		gen("gate-all", []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GPublicInput(), ref.GBaseSum(4, 2), ref.GReducing(3), ref.GArithmetic(3), ref.GArithmeticExt(2), ref.GMulExt(2), ref.GExponentiation(4), ref.GRandomAccess(2, 1, 2), ref.GPoseidonMds(), ref.GCosetInterpolation(2, 3), ref.GPoseidon()},
			[]int{5, 4, 3, 1}, 4, 3, 2, 2, 2, 12, 8, 5, 0),
	}
}

// configInstances varies one configuration parameter at a time around two bases.
func configInstances(deep bool) []*instance {
	gs := func() []ref.Gate {
		return []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GArithmetic(2), ref.GPublicInput()}
	}
	type cfg struct{ deg, rate, pow, q, nch, routed, qdf, npi, steps int }
	var out []*instance
	seen := map[cfg]bool{}
	add := func(c cfg) {
		if c.deg+c.rate < 4*c.steps+4 || c.deg < 4*c.steps || seen[c] {
			return
		}
		seen[c] = true
		groups := []int{2, 2}
		if c.npi%2 == 1 && c.qdf >= 6 {
			groups = []int{4}
		}
		if c.qdf < 4 {
			groups = []int{1, 1, 1, 1}
		}
		if c.qdf < 3 {
			// only degree-1 gates fit
			out = append(out, gen(fmt.Sprintf("cfg%v", c), []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GPublicInput()}, []int{1, 1, 1}, c.deg, c.rate, c.pow, c.q, c.nch, c.routed, c.qdf, c.npi, c.steps))
			return
		}
		out = append(out, gen(fmt.Sprintf("cfg%v", c), gs(), groups, c.deg, c.rate, c.pow, c.q, c.nch, c.routed, c.qdf, c.npi, c.steps))
	}
	for _, b := range []cfg{{4, 1, 2, 1, 1, 8, 8, 3, 0}, {5, 3, 3, 2, 2, 8, 4, 5, 1}} {
		add(b)
		for d := 4*b.steps + 4 - b.rate; d <= 7; d++ {
			if d < 1 {
				continue
			}
			x := b
			x.deg = d
			add(x)
		}
		for r := 1; r <= 4; r++ {
			x := b
			x.rate = r
			if x.deg+r < 4*x.steps+4 {
				x.deg = 4*x.steps + 4 - r
			}
			add(x)
		}
		for _, w := range []int{0, 1, 4, 7, 8} {
			x := b
			x.pow = w
			add(x)
		}
		for q := 1; q <= 4; q++ {
			x := b
			x.q = q
			add(x)
		}
		for n := 1; n <= 4; n++ {
			x := b
			x.nch = n
			add(x)
		}
		for _, r := range []int{1, 2, 3, 4, 7, 8, 9, 16, 17} {
			x := b
			x.routed = r
			add(x)
		}
		for q := 2; q <= 10; q++ {
			x := b
			x.qdf = q
			add(x)
		}
		for n := 0; n <= 9; n++ {
			x := b
			x.npi = n
			add(x)
		}
	}
	add(cfg{8, 4, 0, 1, 1, 4, 3, 0, 2})
	add(cfg{9, 3, 2, 1, 2, 8, 6, 1, 2})
	if deep {
		for _, nch := range []int{1, 2, 3} {
			for _, rate := range []int{1, 2, 3} {
				for _, st := range []int{0, 1, 2} {
					for _, q := range []int{1, 2} {
						for _, npi := range []int{0, 1, 4, 5, 8} {
							for _, qdf := range []int{3, 4, 5, 8} {
								for _, routed := range []int{2, 8, 9} {
									d := 4*st + 4 - rate
									add(cfg{d + (npi % 2), rate, npi % 3, q, nch, routed, qdf, npi, st})
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	reg("C22", func(c *Ctx) {
		c.Assume("validity of the generated and recorded proofs is established by the reference implementation of plonky2's verification algorithm")
		c.Assume("generated circuits keep cap height 4 and folding arity 16, the only values the verifier supports")
		type job struct {
			in     *instance
			mode   eng.Mode
			consts bool
			zero   bool // degenerate witness
		}
		var jobs []job
		for _, d := range []string{"step", "decode_block"} {
			in := recorded(d)
			for _, m := range []eng.Mode{eng.Commit, eng.Native, eng.Plain} {
				if m == eng.Plain && d == "step" && !c.Thorough() {
					continue
				}
				jobs = append(jobs, job{in: in, mode: m})
				if m == eng.Native && d == "step" || c.Thorough() {
					jobs = append(jobs, job{in: in, mode: m, consts: true})
				}
			}
		}
		for i, in := range gateInstances() {
			jobs = append(jobs, job{in: in, mode: eng.Native})
			if i%4 == 0 || c.Thorough() {
				jobs = append(jobs, job{in: in, mode: eng.Plain})
			}
		}
		for i, in := range configInstances(c.Thorough()) {
			jobs = append(jobs, job{in: in, mode: eng.Native, consts: i%5 == 3})
			if i%6 == 0 {
				jobs = append(jobs, job{in: in, mode: eng.Plain, consts: i%4 == 1})
			}
		}
		for _, in := range smallInstances() {
			jobs = append(jobs, job{in: in, mode: eng.Native}, job{in: in, mode: eng.Plain}, job{in: in, mode: eng.Native, consts: true}, job{in: in, mode: eng.Native, zero: true})
		}
		for i, in := range largeInstances() {
			jobs = append(jobs, job{in: in, mode: []eng.Mode{eng.Native, eng.Plain}[i&1&^(i>>1)], consts: i == 3})
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			j.in.init()
			vk, p := j.in.vk, j.in.p
			name := fmt.Sprintf("%s mode=%v consts=%v zero=%v", j.in, j.mode, j.consts, j.zero)
			if j.zero {
				// a circuit of Noop rows with all wires equal to zero
				com := ref.NewCommon([]ref.Gate{ref.GNoop()}, []int{1}, j.in.com.DegreeBits, j.in.com.RateBits, j.in.com.PowBits, 1, j.in.com.NumChallenges, 8, j.in.com.QDF, 0, j.in.com.Arity)
				ci := ref.NewCircuit(com, 5)
				vk, p = ci.VK(), ci.Prove(ref.Hooks{Wires: func(cols [][]ref.F) {
					for _, x := range cols {
						for k := range x {
							x[k] = 0
						}
					}
				}})
				if err := com.Verify(vk, p); err != nil {
					panic("model: degenerate proof rejected: " + err.Error())
				}
				res, core := runVerify(com, vk, p, runOpt{mode: j.mode})
				defer core.Release()
				c.Account(res)
				c.Trace(1)
				if res.Panic != nil || res.Err != nil || !res.BaseOK {
					c.Violate(name, name, "a valid proof with all-zero wires is rejected: %v %v %s", res.Panic, res.Err, res.BaseFail)
				}
				return
			}
			t := time.Now()
			res, core := runVerify(j.in.com, vk, p, runOpt{mode: j.mode, consts: j.consts})
			defer core.Release()
			c.Account(res)
			c.Trace(1)
			if res.Panic != nil || res.Err != nil || !res.BaseOK {
				c.Violate(name, name, "a proof plonky2 accepts is rejected: %s: %v %v %s", name, res.Panic, res.Err, res.BaseFail)
			}
			if i < 10 || i%20 == 0 {
				c.Sample(fmt.Sprintf("%s: %d hints, %d assertions, %.1fs", name, res.Hints, res.Asserts, time.Since(t).Seconds()))
			}
		})
		c.Set("configurations", len(jobs))
	})

	reg("C23", func(c *Ctx) {
		c.Assume("single-element changes: value+1, value-1, negation, zero, and exchange with the next element; verdict compared with the reference verification algorithm")
		ins := smallInstances()
		if c.Thorough() {
			ins = append(ins, gateInstances()[14])
			ins = append(ins, configInstances(false)...)
		}
		type job struct {
			in     *instance
			from   int
			step   int
			per    int
			change int
		}
		var jobs []job
		rec := []*instance{recorded("step"), recorded("decode_block")}
		nch := 2
		if c.Thorough() {
			nch = 5
		}
		for _, in := range ins {
			in.init()
			n := len(sites(in.p, in.vk))
			for ch := 0; ch < nch; ch++ {
				if ch > 0 && in.name != "fold1" && !c.Thorough() {
					continue
				}
				for f := 0; f < n; f += 40 {
					jobs = append(jobs, job{in, f, 1, 40, ch})
				}
			}
		}
		for _, in := range rec {
			n := len(sites(in.p, in.vk))
			if c.Thorough() {
				for f := 0; f < n; f += 100 {
					jobs = append(jobs, job{in, f, 1, 100, 0})
				}
			} else {
				// a stride through every part of the recorded proof
				for k := 0; k < 4; k++ {
					jobs = append(jobs, job{in, 3 * k, 53, n, 0})
				}
			}
		}
		large := largeInstances()
		c.Par(len(large), func(i int) { large[i].init() })
		for _, in := range large {
			n := len(sites(in.p, in.vk))
			if c.Thorough() {
				for f := 0; f < n; f += 100 {
					jobs = append(jobs, job{in, f, 1, 100, 0})
				}
				continue
			}
			parts := 2
			for k := 0; k < parts; k++ {
				jobs = append(jobs, job{in, k * 5, n/60 + 1, n, k})
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			type lane struct {
				id   int32
				name string
				p    *ref.Proof
				vk   *ref.VK
			}
			var lanes []lane
			com := j.in.com
			ss := sites(j.in.p, j.in.vk)
			set := func(core *eng.Core, vars []*eng.Var) {
				for k, cnt := j.from, 0; k < len(ss) && cnt < j.per; k, cnt = k+j.step, cnt+1 {
					p, vk := cloneProof(j.in.p), cloneVK(j.in.vk)
					s2 := sites(p, vk)
					mod := eng.P
					if s2[k].H != nil {
						mod = fr.Modulus()
					}
					old := ss[k].get()
					nv := new(big.Int)
					switch j.change {
					case 0:
						nv.Add(old, big.NewInt(1))
					case 1:
						nv.Neg(old)
					case 2:
						nv.Sub(old, big.NewInt(1))
					case 3:
						nv.SetInt64(0)
					case 4:
						if k+1 >= len(ss) || (ss[k].H == nil) != (ss[k+1].H == nil) {
							continue
						}
						nv.Set(ss[k+1].get())
					}
					nv.Mod(nv, mod)
					if nv.Cmp(old) == 0 {
						continue
					}
					s2[k].set(nv)
					var id int32
					if j.change == 4 {
						// exchange with the neighbour
						s2[k+1].set(old)
						id = core.InputLane()
						core.SetAlt(vars[k], id, nv)
						core.SetAlt(vars[k+1], id, old)
					} else {
						id = core.InputLane()
						core.SetAlt(vars[k], id, nv)
					}
					lanes = append(lanes, lane{id, ss[k].Name, p, vk})
				}
			}
			res, core := runVerify(com, j.in.vk, j.in.p, runOpt{mode: eng.Native, lanes: set})
			defer core.Release()
			c.Account(res)
			if res.Panic != nil || res.Err != nil || !res.BaseOK {
				c.Violate(caseKey(j.in.name, "base"), nil, "valid proof rejected: %v %v %s", res.Panic, res.Err, res.BaseFail)
				return
			}
			alive := map[int32]bool{}
			for _, a := range res.Alive {
				alive[core.Root(a)] = true
			}
			for _, l := range lanes {
				c.Trace(1)
				ok := com.Verify(l.vk, l.p) == nil
				if alive[l.id] && !ok {
					c.Violate(caseKey(j.in.name, l.name, j.change), l.name, "%s: %s changed (kind %d), still accepted", j.in, l.name, j.change)
				}
				if !alive[l.id] && ok {
					c.Violate(caseKey(j.in.name, l.name, j.change), l.name, "%s: %s changed (kind %d): plonky2 accepts, the circuit does not", j.in, l.name, j.change)
				}
				if ok {
					c.Count("still_valid", 1)
				}
			}
			c.Count("changes", int64(len(lanes)))
		})
	})
}
