package checks

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"

	"verifmc/eng"
	"verifmc/ref"
)

func frBig(x fr.Element) *big.Int {
	var b big.Int
	x.BigInt(&b)
	return &b
}

// glStates: the states explored: constant ones, unit vectors, one boundary
// value at each position over two backgrounds, mixed.
func glStates(deep bool) [][12]ref.F {
	var out [][12]ref.F
	al := alphabet(10)
	if deep {
		al = alphabet(32)
	}
	for _, a := range al {
		var s [12]ref.F
		for i := range s {
			s[i] = a
		}
		out = append(out, s)
	}
	for pos := 0; pos < 12; pos++ {
		for k, a := range al {
			if !deep && k >= 4 {
				break
			}
			var s [12]ref.F
			s[pos] = a
			out = append(out, s)
			r := rng(pos*100 + k)
			for i := range s {
				s[i] = r.f()
			}
			s[pos] = a
			out = append(out, s)
		}
	}
	r := rng(77)
	n := 60
	if deep {
		n = 600
	}
	for i := 0; i < n; i++ {
		var s [12]ref.F
		for j := range s {
			if i%3 == 0 {
				s[j] = alphabet(32)[r.next()%32]
			} else {
				s[j] = r.f()
			}
		}
		out = append(out, s)
	}
	return out
}

// extremeStates are the inputs on which some internal state of the permutation
// consists of extreme values.
func extremeStates(deep bool) [][12]ref.F {
	var vs [][12]ref.F
	vs = append(vs, [12]ref.F{})
	var all, alt, ones [12]ref.F
	for i := range all {
		all[i], ones[i] = ref.P-1, 1
		if i%2 == 0 {
			alt[i] = ref.P - 1
		}
	}
	vs = append(vs, all, alt)
	if deep {
		vs = append(vs, ones)
		for i := range all {
			var e [12]ref.F
			e[i] = ref.P - 1
			vs = append(vs, e)
			e = all
			e[i] = 0
			vs = append(vs, e)
		}
	}
	var out [][12]ref.F
	for _, v := range vs {
		out = append(out, ref.GLReaching(v)...)
	}
	return out
}

func init() {
	reg("C07", func(c *Ctx) {
		c.Assume("states and sponge inputs range over boundary and generic values; advice over the attack menu, one deviating hint call per execution (pairs within a window on selected states)")
		states := glStates(c.Thorough())
		attacked := len(states)
		states = append(states, extremeStates(c.Thorough())...)
		c.Par(len(states), func(i int) {
			s := states[i]
			want := ref.GLPerm(s)
			for _, mode := range []eng.Mode{eng.Native, eng.Plain} {
				if mode == eng.Plain && i%8 != 0 {
					continue
				}
				for form := 0; form < 3; form++ { // all variables, all constants, mixed
					if form > 0 && i%4 != 0 {
						continue
					}
					opt := eng.Options{}
					if form == 0 && mode == eng.Native && i < attacked && (i%15 == 0 || c.Thorough() && i%2 == 0) {
						opt = attack(eng.Small, 1, 0)
						if i%60 == 0 {
							opt = attack(eng.Small, 2, 2)
						} else if c.Thorough() && i%5 == 0 {
							opt = attack(eng.Full, 1, 0)
						}
					}
					c.Do(Case{Key: caseKey("perm", i, form), Mode: mode, Opt: opt, Detail: s, Define: func(api frontend.API) []Exp {
						ch := poseidon.NewGoldilocksChip(api)
						var in poseidon.GoldilocksState
						for j := range in {
							if form == 1 || form == 2 && j%2 == 0 {
								in[j] = k(s[j])
							} else {
								in[j] = v(s[j])
							}
						}
						keep := in
						out := ch.Poseidon(in)
						var es []Exp
						for j := range out {
							es = append(es, expF(caseKey("state", j), out[j], want[j]))
							es = append(es, expF(caseKey("input", j), keep[j], s[j]))
						}
						return es
					}})
				}
			}
		})
		// sponge: every input length and output count
		maxLen, maxOut := 26, 18
		if c.Thorough() {
			maxLen, maxOut = 49, 26
		}
		c.Set("bounds", map[string]any{"input_lengths": maxLen, "output_counts": maxOut})
		type sj struct{ n, m, fill int }
		var jobs []sj
		for n := 0; n <= maxLen; n++ {
			for m := 1; m <= maxOut; m++ {
				jobs = append(jobs, sj{n, m, 0})
			}
			for fill := 0; fill < 3; fill++ {
				jobs = append(jobs, sj{n, 0, fill}) // HashNoPad
			}
		}
		// far beyond the exhaustive range, around powers of two
		for _, n := range []int{31, 32, 33, 63, 64, 65, 72, 127, 129, 255, 257} {
			jobs = append(jobs, sj{n, 0, n % 2}, sj{n, 5, 0})
		}
		for _, m := range []int{31, 33, 64, 65, 129} {
			jobs = append(jobs, sj{9, m, 0})
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			r := rng(j.n*7 + j.fill)
			in := make([]ref.F, j.n)
			raw := make([]*big.Int, j.n)
			for x := range in {
				in[x] = r.f()
				if j.fill == 0 && x%5 == 3 {
					in[x] = 0
				}
				raw[x] = u(in[x])
				switch j.fill {
				case 1: // v+p and other unreduced representatives
					in[x] = in[x] & 0xffffffff
					raw[x] = new(big.Int).Add(u(in[x]), new(big.Int).Mul(ref.PBig, u(1+uint64(x)%5)))
				case 2: // widest admissible: below 2^208
					raw[x] = new(big.Int).Lsh(u(in[x]), 143)
					raw[x].Add(raw[x], u(r.next()))
					in[x] = ref.ModP(raw[x])
				}
			}
			mode := eng.Native
			if i%11 == 0 {
				mode = eng.Plain
			}
			opt := eng.Options{}
			if j.m == 0 && (j.n <= 3 || j.n == 9) && mode == eng.Native {
				opt = attack(eng.Small, 1, 0)
			}
			c.Do(Case{Key: caseKey("sponge", j.n, j.m, j.fill), Mode: mode, Opt: opt, Detail: map[string]any{"in": in, "outputs": j.m, "form": j.fill}, Define: func(api frontend.API) []Exp {
				ch := poseidon.NewGoldilocksChip(api)
				vs := make([]gl.Variable, j.n)
				for x := range vs {
					if j.m%4 == 3 {
						vs[x] = k(in[x])
					} else {
						vs[x] = vb(raw[x])
					}
				}
				var es []Exp
				if j.m == 0 {
					out := ch.HashNoPad(vs)
					want := ref.GLHash(in, 4)
					for x := range out {
						es = append(es, expF(caseKey("hash", x), out[x], want[x]))
					}
					for x, y := range ch.ToVec(out) {
						es = append(es, expF(caseKey("vec", x), y, want[x]))
					}
				} else {
					out := ch.HashNToMNoPad(vs, j.m)
					want := ref.GLHash(in, j.m)
					if len(out) != j.m {
						panic("wrong number of outputs")
					}
					for x := range out {
						es = append(es, expF(caseKey("out", x), out[x], want[x]))
					}
				}
				for x := range vs { // the caller's inputs are untouched
					es = append(es, Exp{Name: caseKey("input", x), V: vs[x].Limb, Want: eng.Val(vs[x].Limb)})
				}
				return es
			}})
		})
		// the extension layers, composed as the permutation
		ns := 12
		if c.Thorough() {
			ns = 80
		}
		c.Par(ns, func(i int) {
			r := rng(i + 900)
			var s [12]ref.E
			for j := range s {
				switch {
				case i == 0:
				case i < 4:
					s[j] = ref.E{alphabet(32)[r.next()%32], alphabet(32)[r.next()%32]}
				case i < 6:
					s[j] = ref.E{r.f(), 0}
				default:
					s[j] = r.e()
				}
			}
			want := ref.EPerm(s)
			opt := eng.Options{}
			if i%5 == 1 && (c.Thorough() || i == 1) {
				opt = attack(eng.Small, 1, 0)
			}
			c.Do(Case{Key: caseKey("extlayers", i), Mode: eng.Native, Opt: opt, Detail: s, Define: func(api frontend.API) []Exp {
				ch := poseidon.NewGoldilocksChip(api)
				p := gl.New(api)
				var st poseidon.GoldilocksStateExtension
				for j := range st {
					st[j] = ve(s[j])
				}
				rc := 0
				for x := 0; x < 4; x++ {
					st = ch.ConstantLayerExtension(st, &rc)
					st = ch.SBoxLayerExtension(st)
					st = ch.MdsLayerExtension(st)
					rc++
				}
				st = ch.PartialFirstConstantLayerExtension(st)
				st = ch.MdsPartialLayerInitExtension(st)
				for x := 0; x < 22; x++ {
					st[0] = ch.SBoxMonomialExtension(st[0])
					if x < 21 {
						st[0] = p.AddExtension(st[0], gl.NewVariable(poseidon.FAST_PARTIAL_ROUND_CONSTANTS[x]).ToQuadraticExtension())
					}
					st = ch.MdsPartialLayerFastExtension(st, x)
				}
				rc += 22
				for x := 0; x < 4; x++ {
					st = ch.ConstantLayerExtension(st, &rc)
					st = ch.SBoxLayerExtension(st)
					st = ch.MdsLayerExtension(st)
					rc++
				}
				var es []Exp
				for j := range st {
					es = append(es, expE(caseKey("ext", j), st[j], want[j])...)
				}
				return es
			}})
		})
		c.Sample(states[11])
		c.Sample(jobs[100])
	})

	reg("C08", func(c *Ctx) {
		c.Assume("contents range over boundary and generic values")
		nperm, maxLen := 150, 64
		if c.Thorough() {
			nperm, maxLen = 1500, 200
		}
		c.Set("bounds", map[string]any{"permutation_states": nperm, "input_lengths": maxLen})
		rm1 := new(big.Int).Sub(fr.Modulus(), big.NewInt(1))
		vals := []*big.Int{u(0), u(1), rm1, new(big.Int).Lsh(u(1), 253), new(big.Int).Rsh(rm1, 1), u(2), new(big.Int).Lsh(u(1), 64), new(big.Int).Lsh(u(1), 128)}
		c.Par(nperm, func(i int) {
			r := rng(i + 4000)
			var s [4]fr.Element
			for j := range s {
				var b [32]byte
				switch {
				case i < 32: // boundary at one position, zero elsewhere
					if j == i/8 {
						s[j].SetBigInt(vals[i%8])
					}
					continue
				case i < 64:
					s[j].SetBigInt(vals[r.next()%8])
					continue
				}
				for x := range b {
					b[x] = byte(r.next())
				}
				s[j].SetBytes(b[:])
			}
			want := ref.BNPerm(s)
			w21 := ref.BNTwoToOne(s[1], s[2])
			for form := 0; form < 3; form++ {
				c.Do(Case{Key: caseKey("bnperm", i, form), Mode: eng.Native, Detail: s, Define: func(api frontend.API) []Exp {
					ch := poseidon.NewBN254Chip(api)
					var st poseidon.BN254State
					for j := range st {
						if form == 1 || form == 2 && j%2 == 1 {
							st[j] = frBig(s[j])
						} else {
							st[j] = eng.NewVar(frBig(s[j]))
						}
					}
					keep := st
					out := ch.Poseidon(st)
					var es []Exp
					for j := range out {
						es = append(es, Exp{Name: caseKey("state", j), V: out[j], Want: frBig(want[j])})
						es = append(es, Exp{Name: caseKey("input", j), V: keep[j], Want: frBig(s[j])})
					}
					es = append(es, Exp{Name: "two-to-one", V: ch.TwoToOne(keep[1], keep[2]), Want: frBig(w21)})
					return es
				}})
			}
		})
		type hj struct{ n, fill int }
		var jobs []hj
		for n := 0; n <= maxLen; n++ {
			for f := 0; f < 4; f++ {
				jobs = append(jobs, hj{n, f})
			}
		}
		for n := 65; n <= 300 && !c.Thorough(); n += 9 {
			jobs = append(jobs, hj{n, 1}, hj{n + 1, 1})
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			r := rng(j.n*5 + j.fill + 1)
			in := make([]ref.F, j.n)
			for x := range in {
				switch j.fill {
				case 0:
					in[x] = ref.P - 1
				case 1, 2:
					in[x] = r.f()
				case 3:
					in[x] = alphabet(32)[r.next()%32]
				}
			}
			h, hn := ref.BNHash(in), ref.BNHashOrNoop(in)
			c.Do(Case{Key: caseKey("bnhash", j.n, j.fill), Mode: eng.Native, Detail: in, Define: func(api frontend.API) []Exp {
				ch := poseidon.NewBN254Chip(api)
				vs := make([]gl.Variable, j.n)
				for x := range vs {
					if j.fill == 2 {
						vs[x] = k(in[x])
					} else {
						vs[x] = v(in[x])
					}
				}
				es := []Exp{{Name: "HashNoPad", V: ch.HashNoPad(vs), Want: frBig(h)}, {Name: "HashOrNoop", V: ch.HashOrNoop(vs), Want: frBig(hn)},
					{Name: "HashNoPad again", V: ch.HashNoPad(vs), Want: frBig(h)}}
				for x := range vs {
					es = append(es, expF(caseKey("input", x), vs[x], in[x]))
				}
				return es
			}})
		})
		c.Sample(map[string]any{"lengths": maxLen, "permutations": nperm})
	})

	reg("C09", func(c *Ctx) {
		c.Assume("digests range over all boundary values of every chunk and bit, and generic ones; the bit decomposition may return any digit vector of the menu (every digit changed, every carry moved, the decomposition of digest + j*modulus)")
		var ds []*big.Int
		R := fr.Modulus()
		add := func(x *big.Int) { ds = append(ds, new(big.Int).Mod(x, R)) }
		for i := uint(0); i < 254; i++ {
			b := new(big.Int).Lsh(u(1), i)
			add(b)
			add(new(big.Int).Sub(b, u(1)))
			add(new(big.Int).Sub(R, b))
		}
		for i := int64(0); i < 20; i++ {
			add(big.NewInt(i))
			add(big.NewInt(-i))
		}
		// the values for which digest+R still fits 254 bits
		lim := new(big.Int).Sub(new(big.Int).Lsh(u(1), 254), R)
		for i := int64(-3); i <= 3; i++ {
			add(new(big.Int).Add(lim, big.NewInt(i)))
		}
		r := rng(5)
		n := 200
		if c.Thorough() {
			n = 3000
		}
		for i := 0; i < n; i++ {
			x := new(big.Int)
			for j := 0; j < 4; j++ {
				x.Lsh(x, 64).Add(x, u(r.next()))
			}
			add(x)
		}
		c.Par(len(ds), func(i int) {
			d := ds[i]
			var e fr.Element
			e.SetBigInt(d)
			want := ref.BNToVec(e)
			for _, mode := range []eng.Mode{eng.Native, eng.Plain} {
				for form := 0; form < 2; form++ {
					opt := eng.Options{}
					if form == 0 {
						lv := eng.Full
						if c.Thorough() {
							lv = eng.Deep
						}
						opt = attack(lv, 1, 0)
					}
					c.Do(Case{Key: caseKey("tovec", d, form), Mode: mode, Opt: opt, Detail: d.String(), Define: func(api frontend.API) []Exp {
						ch := poseidon.NewBN254Chip(api)
						var x frontend.Variable = eng.NewVar(d)
						if form == 1 {
							x = d
						}
						out := ch.ToVec(x)
						if len(out) != len(want) {
							panic("wrong number of chunks")
						}
						var es []Exp
						for y := range out {
							es = append(es, expF(caseKey("chunk", y), out[y], want[y]))
						}
						return append(es, Exp{Name: "input", V: x, Want: d})
					}})
				}
			}
		})
		c.Sample(ds[100].String())
	})
}
