package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/ref"
)

func (r *rng) digest() fr.Element {
	var b [32]byte
	for i := range b {
		b[i] = byte(r.next())
	}
	var e fr.Element
	e.SetBytes(b[:])
	return e
}
func (r *rng) es(n int) []ref.E {
	o := make([]ref.E, n)
	for i := range o {
		o[i] = r.e()
	}
	return o
}
func (r *rng) cap(n int) []fr.Element {
	o := make([]fr.Element, n)
	for i := range o {
		o[i] = r.digest()
	}
	return o
}

// transcript shape
type tshape struct{ nch, steps, capLen, consts, sigmas, wires, partial, qdf, final, queries int }

func (t tshape) proof(seed int) (*ref.Common, *ref.Proof, *ref.VK, [4]ref.F) {
	r := rng(seed)
	c := &ref.Common{NumChallenges: t.nch, NumQueries: t.queries, NumConstants: t.consts, NumRouted: t.sigmas, NumWires: t.wires, NumPartial: t.partial, QDF: t.qdf, CapHeight: 4, RateBits: 3, DegreeBits: 5, Groups: [][2]int{{0, 1}}, Gates: []ref.Gate{ref.GNoop()}, SelIdx: []int{0}}
	for i := 0; i < t.sigmas; i++ {
		c.KIs = append(c.KIs, r.f())
	}
	p := &ref.Proof{WiresCap: r.cap(t.capLen), ZsCap: r.cap(t.capLen), QuotientCap: r.cap(t.capLen)}
	p.Open = ref.Openings{Constants: r.es(t.consts), Sigmas: r.es(t.sigmas), Wires: r.es(t.wires), Zs: r.es(t.nch), ZsNext: r.es(t.nch), Partials: r.es(t.nch * t.partial), Quotients: r.es(t.nch * t.qdf)}
	for i := 0; i < t.steps; i++ {
		p.CommitCaps = append(p.CommitCaps, r.cap(t.capLen))
		c.Arity = append(c.Arity, 4)
	}
	p.FinalPoly = r.es(t.final)
	p.Pow = r.f()
	return c, p, &ref.VK{Cap: r.cap(t.capLen), Digest: r.digest()}, [4]ref.F{r.f(), r.f(), r.f(), r.f()}
}

// tamper is a change of some sites of a proof.
type tamper struct {
	name string
	at   []int
	to   []*big.Int
}

func bump(s Site, d uint64) *big.Int {
	if s.F != nil {
		return u(ref.Add(*s.F%ref.P, d))
	}
	var x, y fr.Element
	y.SetUint64(d)
	x.Add(s.H, &y)
	return frBig(x)
}

func init() {
	reg("C11", func(c *Ctx) {
		c.Assume("lists of bounded length (caps of 1, 2 and 16 entries); elements changed one at a time by +1 and by a high bit, and exchanged with the next element of the transcript")
		var shapes []tshape
		maxCh, maxSt := 3, 2
		if c.Thorough() {
			maxSt = 4
		}
		for nch := 1; nch <= maxCh; nch++ {
			for st := 0; st <= maxSt; st++ {
				for _, cl := range []int{1, 2, 16} {
					if cl == 16 && !c.Thorough() && st != 2 {
						continue
					}
					// the alignment within the sponge is varied through the number of wires
					for w := 1; w <= 4; w++ {
						shapes = append(shapes, tshape{nch, st, cl, 1 + w%3, 1 + w%2, w, (w + st) % 3, 1 + (w+nch)%3, 1 << (w % 4), 1 + (w*nch+st)%9})
					}
				}
			}
		}
		// longer lists of every kind
		for st := 3; st <= 5; st++ {
			for nch := 1; nch <= 4; nch++ {
				shapes = append(shapes, tshape{nch, st, 1 + nch%2, 3, 4, 5, st % 3, 2, 2, 3})
			}
		}
		shapes = append(shapes,
			tshape{4, 2, 1, 2, 3, 5, 2, 3, 4, 3}, tshape{5, 1, 2, 2, 3, 5, 2, 3, 4, 3},
			tshape{2, 2, 16, 4, 80, 135, 9, 8, 16, 28}, tshape{2, 3, 16, 9, 100, 234, 12, 8, 32, 84}, tshape{3, 1, 32, 3, 25, 143, 20, 16, 64, 100},
			tshape{1, 2, 17, 20, 3, 4, 1, 1, 8, 33}, tshape{1, 1, 1, 2, 130, 131, 1, 1, 128, 5})
		type job struct {
			s      tshape
			seed   int
			tamper bool
			att    int // window of attacked hints
		}
		var jobs []job
		for i, s := range shapes {
			jobs = append(jobs, job{s, i, s.capLen == 1 && (c.Thorough() || i%4 == 1 || s.steps == 2 && s.wires == 1), 0})
		}
		aw := 3
		if c.Thorough() {
			aw = 40
		}
		for a := 1; a <= aw; a++ {
			jobs = append(jobs, job{shapes[5], 5, false, a})
		}
		c.Set("transcripts", len(jobs))
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			com, p, vk, pih := j.s.proof(j.seed*131 + 7)
			opt := eng.Options{}
			if j.att > 0 {
				opt = attack(eng.Small, 1, 0)
				opt.From, opt.To = (j.att-1)*150, j.att*150
				opt.KeepTrace = true
			}
			api, core := eng.New(eng.Native, opt)
			defer core.Release()
			pv, vkv := proofVars(p), vkVars(vk)
			hv := pihVar(pih)
			ss := append(sites(p, vk), Site{Name: "pih0", F: &pih[0]}, Site{Name: "pih1", F: &pih[1]}, Site{Name: "pih2", F: &pih[2]}, Site{Name: "pih3", F: &pih[3]})
			vars := siteVars(&pv, &vkv)
			for x := range hv {
				vars = append(vars, hv[x].Limb.(*eng.Var))
			}
			if len(ss) != len(vars) {
				panic("site lists differ")
			}
			var ts []tamper
			lanes := map[int32]int{-1: -1}
			if j.tamper {
				prev := map[string]int{}
				for x, s := range ss {
					if strings.HasPrefix(s.Name, "vkcap") {
						continue // enters only through the digest
					}
					ts = append(ts, tamper{s.Name + "+1", []int{x}, []*big.Int{bump(s, 1)}})
					if s.H != nil {
						t := new(big.Int).Xor(s.get(), new(big.Int).Lsh(big.NewInt(1), 250))
						if t.Cmp(fr.Modulus()) < 0 {
							ts = append(ts, tamper{s.Name + "^bit250", []int{x}, []*big.Int{t}})
						}
					}
					kind := "F"
					if s.H != nil {
						kind = "H"
					}
					if y, ok := prev[kind]; ok && (x%3 == 0 || c.Thorough()) {
						ts = append(ts, tamper{ss[y].Name + "<->" + s.Name, []int{y, x}, []*big.Int{s.get(), ss[y].get()}})
					}
					prev[kind] = x
				}
				for k, t := range ts {
					l := core.InputLane()
					lanes[l] = k
					for z, at := range t.at {
						core.SetAlt(vars[at], l, t.to[z])
					}
				}
			}
			want := com.Transcript(vk, p, pih)
			names, base := flatCh(&want)
			var got []frontend.Variable
			res := core.Run(func(api frontend.API) error {
				cd := commonData(com)
				chip := verifier.NewVerifierChip(api, cd)
				ch := chip.GetChallenges(pv.Proof, poseidon.GoldilocksHashOut(hv), vkv)
				for _, x := range flatChVars(&ch) {
					got = append(got, x.Limb)
				}
				return nil
			})
			_ = api
			c.Account(res)
			key := caseKey("transcript", fmt.Sprintf("%+v", j.s))
			if !res.BaseOK {
				c.Violate(key, j.s, "the challenges of a well-formed proof cannot be derived: %s", clip(res.BaseFail))
				return
			}
			if len(got) != len(base) {
				c.Violate(key, j.s, "%d challenges drawn, expected %d", len(got), len(base))
				return
			}
			cmp := func(l int32, name string, vals []ref.F, detail any) {
				for x := range vals {
					if g := core.LaneVal(got[x], l); g.Cmp(u(vals[x])) != 0 {
						c.Violate(key+"/"+name, map[string]any{"shape": fmt.Sprintf("%+v", j.s), "change": name, "challenge": names[x], "got": g.String(), "want": vals[x], "advice": detail},
							"challenge %s is %s, expected %d (transcript %s)", names[x], g, vals[x], name)
						return
					}
				}
			}
			cmp(-1, "unchanged", base, nil)
			c.Trace(1)
			if j.att > 0 {
				for _, l := range res.Alive {
					cmp(l, "dishonest advice", base, core.Trace(l))
				}
				return
			}
			alive := map[int32]bool{}
			for _, l := range res.Alive {
				alive[l] = true
			}
			for l, k := range lanes {
				if l < 0 {
					continue
				}
				t := ts[k]
				if !alive[l] {
					c.Violate(key+"/"+t.name, t.name, "no challenges for a transcript with %s", t.name)
					continue
				}
				old := make([]*big.Int, len(t.at))
				for z, at := range t.at {
					old[z] = ss[at].get()
				}
				for z, at := range t.at {
					ss[at].set(t.to[z])
				}
				w2 := com.Transcript(vk, p, pih)
				for z, at := range t.at {
					ss[at].set(old[z])
				}
				_, v2 := flatCh(&w2)
				// model self-check: a suffix of the challenges changes
				first := -1
				for x := range v2 {
					if v2[x] != base[x] && first < 0 {
						first = x
					}
					if first >= 0 && v2[x] == base[x] {
						panic("model: a later challenge did not change")
					}
				}
				if first < 0 {
					panic("model: no challenge changed for " + t.name)
				}
				cmp(l, t.name, v2, nil)
				c.Trace(1)
			}
			c.Count("changed_elements", int64(len(ts)))
		})
		c.Sample(shapes[5])
	})
}
