package checks

import (
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

// chSim runs the real challenger and the model side by side.
type chSim struct {
	c  *challenger.Chip
	m  *ref.Challenger
	r  rng
	es []Exp
}

func (s *chSim) val() ref.F {
	if s.r.next()%4 == 0 {
		return alphabet(32)[s.r.next()%32]
	}
	return s.r.f()
}
func (s *chSim) ext() ref.E { return ref.E{s.val(), s.val()} }
func (s *chSim) digest() fr.Element {
	var b [32]byte
	for i := range b {
		b[i] = byte(s.r.next())
	}
	var e fr.Element
	e.SetBytes(b[:])
	return e
}
func (s *chSim) got(name string, v gl.Variable, want ref.F) {
	s.es = append(s.es, expF(caseKey(name, len(s.es)), v, want))
}
func (s *chSim) gets(name string, vs []gl.Variable, want []ref.F) {
	if len(vs) != len(want) {
		panic("wrong number of challenges")
	}
	for i := range vs {
		s.got(name, vs[i], want[i])
	}
}

type chOp struct {
	name string
	do   func(s *chSim)
}

func obsN(n int, form int) func(s *chSim) {
	return func(s *chSim) {
		xs := make([]ref.F, n)
		vs := make([]gl.Variable, n)
		for i := range xs {
			xs[i] = s.val()
			switch form {
			case 1:
				vs[i] = k(xs[i])
			case 2: // an unreduced representative
				vs[i] = vb(new(big.Int).Add(u(xs[i]), new(big.Int).Mul(ref.PBig, u(s.r.next()>>(s.r.next()%64)))))
			default:
				vs[i] = v(xs[i])
			}
		}
		s.c.ObserveElements(vs)
		s.m.Observe(xs...)
	}
}

func capOf(hs []fr.Element) variables.FriMerkleCap {
	var c variables.FriMerkleCap
	for _, h := range hs {
		c = append(c, eng.NewVar(frBig(h)))
	}
	return c
}

var chOps = []chOp{
	{"obs1", func(s *chSim) { x := s.val(); s.c.ObserveElement(v(x)); s.m.Observe(x) }},
	{"obs3", obsN(3, 0)},
	{"obs8", obsN(8, 0)},
	{"obs13const", obsN(13, 1)},
	{"obs2unreduced", obsN(2, 2)},
	{"hash", func(s *chSim) {
		h := []ref.F{s.val(), s.val(), s.val(), s.val()}
		s.c.ObserveHash(poseidon.GoldilocksHashOut{v(h[0]), v(h[1]), v(h[2]), v(h[3])})
		s.m.Observe(h...)
	}},
	{"bnhash", func(s *chSim) { h := s.digest(); s.c.ObserveBN254Hash(eng.NewVar(frBig(h))); s.m.ObserveHash(h) }},
	{"cap2", func(s *chSim) {
		hs := []fr.Element{s.digest(), s.digest()}
		s.c.ObserveCap(capOf(hs))
		s.m.ObserveCap(hs)
	}},
	{"ext", func(s *chSim) { x := s.ext(); s.c.ObserveExtensionElement(ve(x)); s.m.ObserveE(x) }},
	{"openings", func(s *chSim) {
		a, b := []ref.E{s.ext(), s.ext()}, []ref.E{s.ext()}
		s.c.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: ves(a)}, {Values: ves(b)}}})
		s.m.ObserveE(a...)
		s.m.ObserveE(b...)
	}},
	{"get1", func(s *chSim) { s.got("challenge", s.c.GetChallenge(), s.m.Get()) }},
	{"get3", func(s *chSim) { s.gets("challenges", s.c.GetNChallenges(3), s.m.GetN(3)) }},
	{"get10", func(s *chSim) { s.gets("challenges", s.c.GetNChallenges(10), s.m.GetN(10)) }},
	{"getext", func(s *chSim) { x := s.c.GetExtensionChallenge(); s.gets("ext", x[:], s.m.GetN(2)) }},
	{"gethash", func(s *chSim) { x := s.c.GetHash(); s.gets("hash", x[:], s.m.GetN(4)) }},
	{"get0obs0", func(s *chSim) {
		s.gets("none", s.c.GetNChallenges(0), nil)
		s.c.ObserveElements(nil)
		s.c.ObserveCap(nil)
		s.c.ObserveOpenings(fri.Openings{})
		s.c.ObserveExtensionElements(nil)
	}},
}

// prefixes that reach every abstract state (pending inputs, unread outputs)
func chPrefixes() map[string]func(s *chSim) {
	p := map[string]func(s *chSim){"fresh": func(*chSim) {}}
	for i := 1; i < 8; i++ {
		i := i
		p[caseKey("in", i)] = obsN(i, 0)
		p[caseKey("absorbed-in", i)] = obsN(8+i, 0)
	}
	for o := 0; o <= 8; o++ {
		o := o
		p[caseKey("out", o)] = func(s *chSim) {
			obsN(8, 0)(s)
			s.gets("prefix", s.c.GetNChallenges(uint64(8-o)), s.m.GetN(8-o))
		}
	}
	return p
}

func (c *Ctx) chRun(key string, seq []func(s *chSim), mode eng.Mode, opt eng.Options, detail any) {
	c.Do(Case{Key: key, Mode: mode, Opt: opt, Detail: detail, Define: func(api frontend.API) []Exp {
		s := &chSim{c: challenger.NewChip(api), m: &ref.Challenger{}}
		for _, f := range seq {
			f(s)
		}
		return s.es
	}})
}

func init() {
	reg("C10", func(c *Ctx) {
		c.Assume("observed values are generic and boundary values; every abstract sponge state (pending inputs x unread outputs) is crossed with every sequence of operations to the stated depth")
		// every abstract state x every pair (triple) of operations, then ten challenges
		pre := chPrefixes()
		var names []string
		for n := range pre {
			names = append(names, n)
		}
		sortStrings(names)
		depth := 2
		if c.Thorough() {
			depth = 3
		}
		var seqs [][]int
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) == depth {
				seqs = append(seqs, append([]int(nil), cur...))
				return
			}
			for i := range chOps {
				rec(append(cur, i))
			}
		}
		rec(nil)
		last := func(s *chSim) { s.gets("final", s.c.GetNChallenges(10), s.m.GetN(10)) }
		c.Set("bounds", map[string]any{"operation_depth": depth, "operations": len(chOps), "abstract_states": len(names), "initial_depth": depth + 1})
		c.Par(len(names)*len(seqs), func(i int) {
			n, sq := names[i/len(seqs)], seqs[i%len(seqs)]
			fs := []func(*chSim){pre[n]}
			lab := []string{n}
			for _, o := range sq {
				fs = append(fs, chOps[o].do)
				lab = append(lab, chOps[o].name)
			}
			mode := eng.Native
			if i%37 == 0 {
				mode = eng.Plain
			}
			c.chRun(strings.Join(lab, " "), append(fs, last), mode, eng.Options{}, lab)
			c.Count("operation_sequences", 1)
		})
		// deeper from the initial state over the operations that matter most
		core := []int{0, 1, 2, 6, 10, 11, 13}
		d2 := 4
		if c.Thorough() {
			d2 = 5
		}
		var seqs2 [][]int
		var rec2 func(cur []int)
		rec2 = func(cur []int) {
			if len(cur) == d2 {
				seqs2 = append(seqs2, append([]int(nil), cur...))
				return
			}
			for _, i := range core {
				rec2(append(cur, i))
			}
		}
		rec2(nil)
		c.Par(len(seqs2), func(i int) {
			var fs []func(*chSim)
			lab := []string{"deep"}
			for _, o := range seqs2[i] {
				fs = append(fs, chOps[o].do)
				lab = append(lab, chOps[o].name)
			}
			c.chRun(strings.Join(lab, " "), fs, eng.Native, eng.Options{}, lab)
			c.Count("operation_sequences", 1)
		})
		// with dishonest advice
		c.Par(len(chOps)*4, func(i int) {
			o := chOps[i%len(chOps)]
			p := []string{"fresh", "in,3", "out,2", "out,8"}[i/len(chOps)]
			opt := attack(eng.Small, 1, 0)
			if i/len(chOps) > 0 && !c.Thorough() {
				opt.From = 1000 * (i % 3)
				opt.To = opt.From + 400
			}
			c.chRun(caseKey("advice", p, o.name), []func(*chSim){pre[p], o.do, func(s *chSim) { s.got("final", s.c.GetChallenge(), s.m.Get()) }}, eng.Native, opt, o.name)
		})
		// lists of every length to a bound and some long ones, through every list operation
		var lens []int
		for n := 0; n <= 34; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 63, 64, 65, 100, 128, 136, 200, 257)
		listOps := []struct {
			name string
			do   func(s *chSim, n int)
		}{
			{"elements", func(s *chSim, n int) { obsN(n, n%3)(s) }},
			{"extensions", func(s *chSim, n int) {
				a := make([]ref.E, n)
				for i := range a {
					a[i] = s.ext()
				}
				s.c.ObserveExtensionElements(ves(a))
				s.m.ObserveE(a...)
			}},
			{"cap", func(s *chSim, n int) {
				h := make([]fr.Element, min(n, 65))
				for i := range h {
					h[i] = s.digest()
				}
				s.c.ObserveCap(capOf(h))
				s.m.ObserveCap(h)
			}},
			{"batches", func(s *chSim, n int) {
				var o fri.Openings
				for left, k := n, 0; left > 0; k++ {
					m := min(left, []int{1, 4, 2, 0, 7}[k%5])
					a := make([]ref.E, m)
					for i := range a {
						a[i] = s.ext()
					}
					o.Batches = append(o.Batches, fri.OpeningBatch{Values: ves(a)})
					s.m.ObserveE(a...)
					left -= m
				}
				s.c.ObserveOpenings(o)
			}},
			{"one batch", func(s *chSim, n int) {
				a := make([]ref.E, n)
				for i := range a {
					a[i] = s.ext()
				}
				s.c.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: ves(a)}}})
				s.m.ObserveE(a...)
			}},
			{"challenges", func(s *chSim, n int) { s.gets("challenges", s.c.GetNChallenges(uint64(n)), s.m.GetN(n)) }},
		}
		pre2 := []func(*chSim){obsN(0, 0), obsN(3, 0), func(s *chSim) { s.got("challenge", s.c.GetChallenge(), s.m.Get()) }}
		c.Par(len(lens)*len(listOps)*len(pre2), func(i int) {
			i, n := i/len(lens), lens[len(lens)-1-i%len(lens)]
			o, q := listOps[i/len(pre2)], i%len(pre2)
			c.chRun(caseKey("list", o.name, n, q), []func(*chSim){pre2[q], func(s *chSim) { o.do(s, n) }, func(s *chSim) { s.gets("after", s.c.GetNChallenges(2), s.m.GetN(2)) }}, eng.Native, eng.Options{}, o.name)
			c.Count("lists", 1)
		})
		// FRI challenges for every number of layers / queries / coefficients
		type fj struct{ caps, capLen, poly, q int }
		var fjs []fj
		for caps := 0; caps <= 5; caps++ {
			for _, capLen := range []int{1, 2, 16, 17} {
				if caps > 3 && capLen > 2 {
					continue
				}
				for poly := 0; poly <= 4; poly++ {
					for _, q := range []int{0, 1, 2, 9, 28} {
						fjs = append(fjs, fj{caps, capLen, poly, q})
					}
				}
			}
		}
		c.Par(len(fjs), func(i int) {
			j := fjs[i]
			c.chRun(caseKey("frichallenges", j), []func(*chSim){obsN(i%9, 0), func(s *chSim) {
				var caps []variables.FriMerkleCap
				var hs [][]fr.Element
				for x := 0; x < j.caps; x++ {
					var h []fr.Element
					for y := 0; y < j.capLen; y++ {
						h = append(h, s.digest())
					}
					hs = append(hs, h)
					caps = append(caps, capOf(h))
				}
				var co []ref.E
				for x := 0; x < j.poly; x++ {
					co = append(co, s.ext())
				}
				pw := s.val()
				ch := s.c.GetFriChallenges(caps, variables.PolynomialCoeffs{Coeffs: ves(co)}, v(pw), types.FriConfig{NumQueryRounds: uint64(j.q)})
				s.gets("alpha", ch.FriAlpha[:], s.m.GetN(2))
				if len(ch.FriBetas) != j.caps {
					panic("wrong number of betas")
				}
				for x := range hs {
					s.m.ObserveCap(hs[x])
					s.gets("beta", ch.FriBetas[x][:], s.m.GetN(2))
				}
				s.m.ObserveE(co...)
				s.m.Observe(pw)
				s.got("pow", ch.FriPowResponse, s.m.Get())
				s.gets("query", ch.FriQueryIndices, s.m.GetN(j.q))
			}}, eng.Native, eng.Options{}, j)
		})
		c.Sample(map[string]any{"prefix": names[3], "ops": []string{chOps[seqs[17][0]].name, chOps[seqs[17][1]].name}})
	})
}
