package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verifmc/eng"
	"verifmc/ref"
)

var frModulus = fr.Modulus()

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// native values around every interesting boundary
func boundaryValues(extra ...*big.Int) []*big.Int {
	var base []*big.Int
	base = append(base, big.NewInt(0), ref.PBig, pow2(32), pow2(64), new(big.Int).Lsh(ref.PBig, 1), frModulus,
		new(big.Int).Sub(frModulus, ref.PBig), new(big.Int).Sub(pow2(64), pow2(32)), new(big.Int).Mul(ref.PBig, ref.PBig), new(big.Int).Rsh(frModulus, 1),
		new(big.Int).Sub(frModulus, pow2(32)), new(big.Int).Sub(frModulus, pow2(64)))
	base = append(base, extra...)
	seen := map[string]bool{}
	var out []*big.Int
	for _, b := range base {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(b, big.NewInt(d))
			x.Mod(x, frModulus)
			if !seen[x.String()] {
				seen[x.String()] = true
				out = append(out, x)
			}
		}
	}
	// v, v+p, v+2^64 pairs of canonical values
	for _, f := range alphabet(32) {
		for _, off := range []*big.Int{big.NewInt(0), ref.PBig, pow2(64), new(big.Int).Lsh(ref.PBig, 32), pow2(96), pow2(128)} {
			x := new(big.Int).Add(u(f), off)
			if !seen[x.String()] {
				seen[x.String()] = true
				out = append(out, x)
			}
		}
	}
	return out
}

// commitPad registers enough 16-bit checks for the commitment-based checker to choose 16-bit limbs.
func commitPad(p *gl.Chip, n int) {
	for i := 0; i < n; i++ {
		p.RangeCheckWithMaxBits(v(uint64(i)&0xffff), 16)
	}
}

const padN = 66000

func init() {
	reg("C03", func(c *Ctx) {
		level, devs := eng.Full, 2
		vals := boundaryValues()
		c.Set("bounds", map[string]any{"values": len(vals), "deviations": devs})
		// Goldilocks range check, native and bit decomposition, every advice
		c.Par(len(vals)*2, func(i int) {
			x, m := vals[i/2], modes[i%2]
			want := Reject
			if x.Cmp(ref.PBig) < 0 {
				want = Accept
			}
			opt := attack(level, devs, 0)
			if m == eng.Plain {
				opt = attack(eng.Full, 2, 3)
			}
			c.Do(Case{Key: caseKey("RangeCheck", x), Mode: m, Opt: opt, Want: want, Detail: x.String(),
				Define: func(api frontend.API) []Exp { gl.New(api).RangeCheck(vb(x)); return nil }})
			c.Do(Case{Key: caseKey("RangeCheck-constant", x), Mode: m, Opt: attack(eng.Small, 1, 0), Want: want, Detail: x.String(),
				Define: func(api frontend.API) []Exp {
					gl.New(api).RangeCheck(gl.NewVariable(new(big.Int).Set(x)))
					return nil
				}})
			c.Do(Case{Key: caseKey("RangeCheckQE0", x), Mode: m, Opt: attack(eng.Small, 1, 0), Want: want, Detail: x.String(),
				Define: func(api frontend.API) []Exp {
					gl.New(api).RangeCheckQE(gl.NewQuadraticExtensionVariable(vb(x), v(5)))
					return nil
				}})
			c.Do(Case{Key: caseKey("RangeCheckQE1", x), Mode: m, Opt: attack(eng.Small, 1, 0), Want: want, Detail: x.String(),
				Define: func(api frontend.API) []Exp {
					gl.New(api).RangeCheckQE(gl.NewQuadraticExtensionVariable(v(5), vb(x)))
					return nil
				}})
		})
		// n-bit checks of every width
		c.Par(253*2, func(i int) {
			n, m := 1+i/2, modes[i%2]
			vs := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(pow2(n), big.NewInt(1)), pow2(n), new(big.Int).Add(pow2(n), big.NewInt(1)), pow2(n - 1),
				new(big.Int).Sub(frModulus, big.NewInt(1)), new(big.Int).Sub(frModulus, pow2(n-1)), new(big.Int).Add(pow2(n), pow2(n-1))}
			if n < 252 {
				vs = append(vs, pow2(n+1))
			}
			for _, x := range vs {
				x := new(big.Int).Mod(x, frModulus)
				want := Reject
				if x.Cmp(pow2(n)) < 0 {
					want = Accept
				}
				c.Do(Case{Key: caseKey("RangeCheckWithMaxBits", n, x), Mode: m, Opt: attack(eng.Full, 1, 0), Want: want, Detail: map[string]any{"bits": n, "value": x.String()},
					Define: func(api frontend.API) []Exp { gl.New(api).RangeCheckWithMaxBits(vb(x), uint64(n)); return nil }})
				c.Do(Case{Key: caseKey("RangeCheckWithMaxBits-constant", n, x), Mode: m, Opt: attack(eng.Small, 1, 0), Want: want, Detail: map[string]any{"bits": n, "value": x.String()},
					Define: func(api frontend.API) []Exp {
						gl.New(api).RangeCheckWithMaxBits(gl.NewVariable(new(big.Int).Set(x)), uint64(n))
						return nil
					}})
			}
		})
		// every sequence of two checks of one value, and of a value with another one in between
		widths := []int{0, 16, 32, 48, 64, 128}
		c.Par(len(widths)*len(widths)*4, func(i int) {
			a, b, m, gap := widths[i/4%len(widths)], widths[i/4/len(widths)], modes[i%2], i/2%2
			lim := func(w int) *big.Int {
				if w == 0 {
					return ref.PBig
				}
				return pow2(w)
			}
			low := lim(a)
			if lim(b).Cmp(low) < 0 {
				low = lim(b)
			}
			for _, w := range widths {
				for d := int64(-1); d <= 1; d++ {
					x := new(big.Int).Add(lim(w), big.NewInt(d))
					want := Reject
					if x.Cmp(low) < 0 {
						want = Accept
					}
					c.Do(Case{Key: caseKey("two-checks", a, b, gap, x), Mode: m, Opt: attack(eng.Small, 1, 0), Want: want, Detail: x.String(),
						Define: func(api frontend.API) []Exp {
							p, val := gl.New(api), vb(x)
							doCheck(p, val, a)
							if gap == 1 {
								doCheck(p, v(7), b)
							}
							doCheck(p, val, b)
							return nil
						}})
				}
			}
		})
		c.Sample(map[string]any{"check": "RangeCheck", "value": ref.PBig.String(), "expected": "reject for every advice"})
		// commitment-based back end: many values as lanes of one execution
		commitRangeChecks(c, vals)
		// widths the commitment-based checker cannot enforce are refused
		var bad []int
		for n := 1; n <= 64; n++ {
			if n%16 != 0 {
				bad = append(bad, n)
			}
		}
		if !c.Thorough() {
			bad = []int{1, 7, 8, 15, 17, 20, 24, 31, 33, 40, 48 + 8, 63, 12}
		}
		c.Par(len(bad), func(i int) {
			n := bad[i]
			c.Do(Case{Key: caseKey("commit-unaligned", n), Mode: eng.Commit, Want: Refuse, Detail: n, Define: func(api frontend.API) []Exp {
				p := gl.New(api)
				commitPad(p, padN)
				p.RangeCheckWithMaxBits(v(0), uint64(n))
				return nil
			}})
		})
		// too few checks for 16-bit limbs: the checker would choose another base width
		for _, n := range []int{0, 1, 100, 3000, 30000} {
			n := n
			c.Do(Case{Key: caseKey("commit-other-base", n), Mode: eng.Commit, Want: Refuse, Detail: n, Define: func(api frontend.API) []Exp {
				p := gl.New(api)
				for i := 0; i < n; i++ {
					p.RangeCheckWithMaxBits(v(uint64(i)&0xffff), 16)
				}
				p.RangeCheck(v(3))
				return nil
			}})
		}
	})
}

// doCheck is an n-bit check, or the Goldilocks check for n = 0.
func doCheck(p *gl.Chip, x gl.Variable, n int) {
	if n == 0 {
		p.RangeCheck(x)
	} else {
		p.RangeCheckWithMaxBits(x, uint64(n))
	}
}

// commitRangeChecks explores, in the commitment-based back end, one execution
// per (check, value): the checked variable takes every value in its own lane.
func commitRangeChecks(c *Ctx, vals []*big.Int) {
	widths := []int{16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192}
	type item struct {
		name string
		bits int // 0: Goldilocks check
		vals []*big.Int
		then []int // further checks of the same value
	}
	var items []item
	gls := vals
	if !c.Thorough() {
		gls = nil
		for i, x := range vals {
			if i < 60 || i%4 == 0 {
				gls = append(gls, x)
			}
		}
	}
	for i := 0; i < len(gls); i += 40 {
		e := i + 40
		if e > len(gls) {
			e = len(gls)
		}
		items = append(items, item{"RangeCheck", 0, gls[i:e], nil})
	}
	for _, w := range widths {
		items = append(items, item{"RangeCheckWithMaxBits", w, []*big.Int{new(big.Int).Sub(pow2(w), big.NewInt(1)), pow2(w), new(big.Int).Add(pow2(w), big.NewInt(1)), pow2(w - 1), pow2(w + 1), pow2(w + 8), pow2(w + 15),
			new(big.Int).Sub(frModulus, big.NewInt(1)), new(big.Int).Sub(frModulus, pow2(16))}, nil})
	}
	for _, ab := range [][2]int{{64, 32}, {32, 64}, {0, 48}, {64, 0}, {128, 64}, {48, 16}} {
		var vs []*big.Int
		for _, w := range []int{16, 32, 48, 64, 128} {
			vs = append(vs, new(big.Int).Sub(pow2(w), big.NewInt(1)), pow2(w))
		}
		vs = append(vs, ref.PBig, new(big.Int).Sub(ref.PBig, big.NewInt(1)))
		items = append(items, item{"then", ab[0], vs, []int{ab[1]}})
	}
	c.ParN(6, len(items), func(i int) {
		it := items[i]
		opt := attack(eng.Small, 1, 0)
		opt.KeepTrace = true
		opt.From, opt.To = 1<<30, 1<<30+1 // no forks of the base; lanes with failing hints use the error menu
		api, core := eng.New(eng.Commit, opt)
		x := eng.NewVar(3)
		ids := core.AltInput(x, it.vals)
		res := core.Run(func(frontend.API) error {
			p := gl.New(api)
			doCheck(p, gl.NewVariable(x), it.bits)
			for _, w := range it.then {
				doCheck(p, gl.NewVariable(x), w)
			}
			commitPad(p, padN)
			return nil
		})
		c.Account(res)
		c.Trace(int64(len(it.vals)))
		key := fmt.Sprintf("commit-%s-%d-%v", it.name, it.bits, it.then)
		if !res.BaseOK {
			c.Violate(key, nil, "a small value is not accepted: %s", clip(res.BaseFail))
			core.Release()
			return
		}
		alive := map[int32]bool{}
		for _, l := range res.Alive {
			// a lane forked by the error menu counts for the value it descends from
			alive[core.Root(l)] = true
		}
		lim := pow2(256)
		for _, w := range append([]int{it.bits}, it.then...) {
			l := ref.PBig
			if w > 0 {
				l = pow2(w)
			}
			if l.Cmp(lim) < 0 {
				lim = l
			}
		}
		for j, l := range ids {
			if l < 0 {
				continue
			}
			want := it.vals[j].Cmp(lim) < 0
			if alive[l] != want {
				c.Violate(fmt.Sprintf("%s-%s", key, it.vals[j]), nil, "value %s: accepted=%v, expected %v", it.vals[j], alive[l], want)
			}
		}
		core.Release()
	})
}
