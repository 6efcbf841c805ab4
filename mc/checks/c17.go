package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

// merkleVariants for query k: every algebraic relation keeps holding, only the
// relation between leaf, path, position and cap is disturbed.
func (s *friSetup) merkleVariants(queries []ref.F, k int, deep bool) []friVar {
	var out []friVar
	n := s.lde()
	mask := uint64(1)<<n - 1
	idx := queries[k] & mask
	base := s.inst(s.d, queries, "")
	edit := func(name string, f func(v *friVar) bool) {
		nv := friVar{name, cloneProof(base.p), cloneVK(base.vk), cloneCh(base.ch)}
		if f(&nv) {
			out = append(out, nv)
		}
	}
	// weights of the leaf elements in the two batches
	var off []int
	tot := 0
	for t := range s.d.Leaves {
		off = append(off, tot)
		tot += len(s.d.Leaves[t][0])
	}
	pw := func(i int) ref.E { return ref.EPow(s.d.Ch.FriAlpha, uint64(i)) }
	for t := range s.d.Leaves {
		nl := len(s.d.Leaves[t][0])
		lo := 0
		if t == 2 {
			lo = s.com.NumChallenges // the zs also enter the second batch
		}
		for e := lo; e < nl; e++ {
			if nl-lo < 3 {
				break
			}
			if !deep && (e+int(idx))%3 != 0 {
				continue
			}
			a := lo + (e-lo+1)%(nl-lo)
			b := lo + (e-lo+2)%(nl-lo)
			edit(fmt.Sprintf("query %d: tree %d elements %d,%d,%d changed, combination kept", k, t, e, a, b), func(v *friVar) bool {
				l := v.p.Rounds[k].Leaves[t].Elems
				x, y, ok := solve2(pw(off[t]+a), pw(off[t]+b), ref.ESub(ref.E{}, pw(off[t]+e)))
				if !ok {
					return false
				}
				l[e], l[a], l[b] = ref.Add(l[e], 1), ref.Add(l[a], x), ref.Add(l[b], y)
				return true
			})
		}
		for lv := range base.p.Rounds[k].Leaves[t].Path {
			edit(fmt.Sprintf("query %d: tree %d sibling %d changed", k, t, lv), func(v *friVar) bool {
				h := &v.p.Rounds[k].Leaves[t].Path[lv]
				var one fr.Element
				one.SetOne()
				h.Add(h, &one)
				return true
			})
		}
		if len(base.p.Rounds[k].Leaves[t].Path) > 1 {
			edit(fmt.Sprintf("query %d: tree %d siblings exchanged", k, t), func(v *friVar) bool {
				h := v.p.Rounds[k].Leaves[t].Path
				h[0], h[1] = h[1], h[0]
				return true
			})
		}
		// the honest data committed at another position
		for bit := 0; bit < n; bit++ {
			if !deep && (bit+t+int(idx))%2 != 0 && bit < n-4 {
				continue
			}
			o := idx ^ 1<<bit
			d := s.d.Clone()
			d.TouchLeaf(t, idx)
			d.Leaves[t][idx], d.Leaves[t][o] = d.Leaves[t][o], d.Leaves[t][idx]
			edit(fmt.Sprintf("query %d: tree %d leaf committed at position %d instead of %d", k, t, o, idx), func(v *friVar) bool {
				// other queries must stay consistent: only this query moves
				tr := d.Tree(t)
				for z := range queries {
					zi := queries[z] & mask
					if z != k && (zi == idx || zi == o) {
						return false
					}
					if z == k {
						zi = o
					}
					v.p.Rounds[z].Leaves[t].Path = tr.Path(zi)
				}
				setCap(v, t, tr.Cap())
				return true
			})
		}
	}
	pos := idx
	for li := range s.com.Arity {
		w := int(pos & 15)
		at := pos >> 4
		for j := 1; j < 16; j++ {
			if !deep && (j+int(idx))%5 != 0 {
				continue
			}
			a, b := (w+j)%16, (w+j%15+1)%16
			if a == w || b == w || a == b {
				continue
			}
			edit(fmt.Sprintf("query %d: layer %d evals %d,%d changed, value and fold kept", k, li, a, b), func(v *friVar) bool {
				ev := v.p.Rounds[k].Steps[li].Evals
				la, lb := s.foldWeight(idx, li, a), s.foldWeight(idx, li, b)
				dl := ref.E{uint64(j % 2), uint64(1 - j%2)}
				ev[a] = ref.EAdd(ev[a], dl)
				ev[b] = ref.ESub(ev[b], ref.EDiv(ref.EMul(dl, la), lb))
				return true
			})
		}
		for lv := range base.p.Rounds[k].Steps[li].Path {
			edit(fmt.Sprintf("query %d: layer %d sibling %d changed", k, li, lv), func(v *friVar) bool {
				h := &v.p.Rounds[k].Steps[li].Path[lv]
				var one fr.Element
				one.SetOne()
				h.Add(h, &one)
				return true
			})
		}
		bits := n - 4*(li+1)
		for bit := 0; bit < bits; bit++ {
			o := at ^ 1<<bit
			d := s.d.Clone()
			lay := d.TouchLayer(li)
			for j := uint64(0); j < 16; j++ {
				lay[at<<4+j], lay[o<<4+j] = lay[o<<4+j], lay[at<<4+j]
			}
			edit(fmt.Sprintf("query %d: layer %d coset committed at position %d instead of %d", k, li, o, at), func(v *friVar) bool {
				tr := d.Layer(li)
				for z := range queries {
					zi := queries[z] & mask >> (4 * (li + 1))
					if z != k && (zi == at || zi == o) {
						return false
					}
					if z == k {
						zi = o
					}
					v.p.Rounds[z].Steps[li].Path = tr.Path(zi)
				}
				v.p.CommitCaps[li] = append([]fr.Element(nil), tr.Cap()...)
				return true
			})
		}
		pos >>= 4
	}
	if k == 0 {
		// cap entries: used ones matter, the others do not
		caps := func(v *friVar) [][]fr.Element {
			return append([][]fr.Element{v.vk.Cap, v.p.WiresCap, v.p.ZsCap, v.p.QuotientCap}, v.p.CommitCaps...)
		}
		for ci := range caps(&base) {
			for e := 0; e < 16; e++ {
				edit(fmt.Sprintf("cap %d entry %d changed", ci, e), func(v *friVar) bool {
					var one fr.Element
					one.SetOne()
					h := &caps(v)[ci][e]
					h.Add(h, &one)
					return true
				})
			}
			edit(fmt.Sprintf("caps %d and next exchanged", ci), func(v *friVar) bool {
				cs := caps(v)
				a, b := cs[ci], cs[(ci+1)%len(cs)]
				for e := range a {
					a[e], b[e] = b[e], a[e]
				}
				return true
			})
		}
	}
	// bits of the query value above the domain size do not matter
	if hi := queries[k] ^ 1<<uint(n+1); hi < ref.P {
		edit(fmt.Sprintf("query %d: high bit of the query value", k), func(v *friVar) bool {
			v.ch.Queries[k] = hi
			return true
		})
	}
	return out
}

func setCap(v *friVar, t int, cap []fr.Element) {
	c := append([]fr.Element(nil), cap...)
	switch t {
	case 0:
		v.vk.Cap = c
	case 1:
		v.p.WiresCap = c
	case 2:
		v.p.ZsCap = c
	default:
		v.p.QuotientCap = c
	}
}

func init() {
	reg("C17", func(c *Ctx) {
		c.Assume("trees of bounded height, cap height 4 (the only one supported); the algebraic relations are kept intact so that only the Merkle relation decides")
		ss := friSetups(c.Thorough())
		c.Par(len(ss), func(i int) { ss[i].init() })
		type job struct {
			key     string
			s       *friSetup
			queries []ref.F
			k       int
			att     int
		}
		var jobs []job
		for si, s := range ss {
			n := s.lde()
			sets := 2
			if n <= 8 && s.com.NumWires < 100 {
				sets = 4
			}
			if c.Thorough() {
				sets = 24
				if len(s.com.Arity) > 2 {
					sets = 3
				}
			}
			for z := 0; z < sets; z++ {
				r := rng(si*1000 + z + 17)
				q := []ref.F{r.f(), r.f()}
				if z == 1 {
					q = []ref.F{s.queryVal(0, 0), s.queryVal(1<<n-1, 1)}
				}
				for k := range q {
					jobs = append(jobs, job{caseKey(s.name, "merkle", z, k), s, q, k, 0})
				}
			}
			if len(s.com.Arity) < 2 { // many queries
				r := rng(si + 7000)
				var q []ref.F
				for len(q) < 33 {
					q = append(q, r.f())
				}
				for _, k := range []int{8, 16, 28, 31, 32} {
					jobs = append(jobs, job{caseKey(s.name, "many queries", k), s, q, k, 0})
				}
			}
			na := 1
			if c.Thorough() {
				na = 6
			}
			for a := 1; a <= na; a++ {
				jobs = append(jobs, job{caseKey(s.name, "advice", a), s, []ref.F{s.queryVal(uint64(a*13), a)}, 0, a})
			}
		}
		c.Set("instances", len(jobs))
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			s := j.s
			base := s.inst(s.d, j.queries, "honest")
			vars := s.merkleVariants(j.queries, j.k, len(j.queries) < 9 && s.com.NumWires < 100 && (c.Thorough() && len(s.com.Arity) < 3 || s.lde() <= 8))
			if len(j.queries) > 8 && len(vars) > 40 {
				vars = vars[len(vars)-40:]
			}
			opt := eng.Options{}
			if j.att > 0 {
				var bad []friVar
				for _, x := range vars {
					if !friOK(s.com, x) {
						bad = append(bad, x)
					}
				}
				base, vars = bad[(j.att*5)%len(bad)], nil
				opt = attack(eng.Small, 1, 0)
				opt.KeepTrace = true
				if !c.Thorough() {
					opt.To = 3000
				}
			}
			c.runFri(j.key, s.com, eng.Native, opt, base, vars)
		})
		c.Sample(map[string]any{"instance": ss[1].name, "changes": names(ss[1].merkleVariants([]ref.F{12345, 777}, 1, false))})
	})

	reg("C18", func(c *Ctx) {
		c.Assume("difficulties 0..63; responses at and around every power of two and the modulus; the rest of the proof is valid (no query rounds). With the commitment-based checker only difficulties that leave a multiple of 16 bits are buildable, the others must be refused.")
		type job struct {
			bits int
			mode eng.Mode
			att  bool
			q    int
		}
		var jobs []job
		for b := 0; b < 64; b++ {
			jobs = append(jobs, job{b, eng.Native, false, 0}, job{b, eng.Plain, false, 0}, job{b, eng.Plain, true, 0}, job{b, eng.Native, true, 0})
		}
		s := friSetups(false)[0]
		s.init()
		for _, b := range []int{0, 1, 8, 16, 20, 32} {
			jobs = append(jobs, job{b, eng.Native, false, 1})
		}
		for _, b := range []int{0, 5, 16, 17, 32, 48} {
			jobs = append(jobs, job{b, eng.Commit, false, 0})
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			var vals []ref.F
			seen := map[ref.F]bool{}
			add := func(x *big.Int) {
				if x.Sign() >= 0 && x.Cmp(u(ref.P)) < 0 && !seen[x.Uint64()] {
					seen[x.Uint64()] = true
					vals = append(vals, x.Uint64())
				}
			}
			for k := 0; k <= 64; k++ {
				for d := int64(-2); d <= 2; d++ {
					add(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(d)))
				}
				add(new(big.Int).Sub(u(ref.P), new(big.Int).Lsh(big.NewInt(1), uint(k))))
			}
			add(big.NewInt(0))
			com := *s.com
			com.PowBits = j.bits
			com.NumQueries = j.q
			var qs []ref.F
			for z := 0; z < j.q; z++ {
				qs = append(qs, s.queryVal(uint64(z*5), z))
			}
			inst := s.inst(s.d, qs, "pow")
			bound := new(big.Int).Lsh(big.NewInt(1), uint(64-j.bits))
			run := func(resp ref.F, lanes []ref.F, opt eng.Options) {
				api, core := eng.New(j.mode, opt)
				defer core.Release()
				pv, vkv := proofVars(inst.p), vkVars(inst.vk)
				ch := cloneCh(inst.ch)
				ch.PowResp = resp
				cv := chVars(ch)
				var bs []*big.Int
				for _, x := range lanes {
					bs = append(bs, u(x))
				}
				ids := core.AltInput(cv.FriChallenges.FriPowResponse.Limb.(*eng.Var), bs)
				res := core.Run(func(frontend.API) error {
					if j.mode == eng.Commit {
						commitPad(gl.New(api), padN)
					}
					cd := commonData(&com)
					chip := fri.NewChip(api, &cd, &cd.FriParams)
					chip.VerifyFriProof(chip.GetInstance(cv.PlonkZeta), chip.ToOpenings(pv.Proof.Openings), &cv.FriChallenges,
						[]variables.FriMerkleCap{vkv.ConstantSigmasCap, pv.Proof.WiresCap, pv.Proof.PlonkZsPartialProductsCap, pv.Proof.QuotientPolysCap}, &pv.Proof.OpeningProof)
					return nil
				})
				c.Account(res)
				key := caseKey("pow", j.bits, j.mode, j.q)
				if j.mode == eng.Commit && (64-j.bits)%16 != 0 {
					if res.Panic == nil && res.Err == nil {
						// accepted as long as the bound is exact
					} else {
						c.Trace(1)
						return
					}
				} else if res.Panic != nil || res.Err != nil {
					c.Violate(key, j.bits, "difficulty %d refused: %s", j.bits, clip(res.BaseFail))
					return
				}
				want := u(resp).Cmp(bound) < 0
				if res.BaseOK != want {
					c.Violate(caseKey(key, resp), nil, "difficulty %d, response %d: accepted=%v, expected %v", j.bits, resp, res.BaseOK, want)
				}
				c.Trace(1)
				alive := map[int32]bool{}
				for _, l := range res.Alive {
					alive[l] = true
				}
				for x, id := range ids {
					if id < 0 {
						continue
					}
					want := u(lanes[x]).Cmp(bound) < 0
					if alive[id] != want {
						c.Violate(caseKey(key, lanes[x]), nil, "difficulty %d, response %d: accepted=%v, expected %v", j.bits, lanes[x], alive[id], want)
					}
					delete(alive, id)
					c.Trace(1)
				}
				if opt.Menu != nil && !want {
					for l := range alive {
						c.Violate(key+"/advice", map[string]any{"response": resp, "advice": core.Trace(l)}, "difficulty %d: dishonest advice lets the response %d pass", j.bits, resp)
						break
					}
				}
			}
			if j.att {
				opt := attack(eng.Full, 1, 0)
				if c.Thorough() {
					opt = attack(eng.Full, 2, 4)
				}
				opt.KeepTrace = true
				for _, x := range []*big.Int{bound, new(big.Int).Add(bound, big.NewInt(1)), new(big.Int).Lsh(bound, 1), u(ref.P - 1)} {
					if x.Cmp(u(ref.P)) < 0 && x.Cmp(bound) >= 0 {
						run(x.Uint64(), nil, opt)
					}
				}
				return
			}
			if j.mode == eng.Commit {
				for _, x := range []*big.Int{big.NewInt(0), new(big.Int).Sub(bound, big.NewInt(1)), bound, new(big.Int).Add(bound, big.NewInt(1)), u(ref.P - 1)} {
					if x.Cmp(u(ref.P)) < 0 {
						run(x.Uint64(), nil, eng.Options{})
					}
				}
				return
			}
			run(0, vals, eng.Options{})
			c.Count("responses", int64(len(vals)))
		})
		c.Set("difficulties", 64)
		c.Sample("difficulty 16: response 2^48-1 accepted, 2^48 rejected")
	})
}
