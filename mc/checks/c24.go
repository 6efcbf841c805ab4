package checks

import (
	"fmt"
	"regexp"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"

	"verifmc/eng"
	"verifmc/ref"
)

// cheat is one dishonest strategy.
type cheat struct {
	name  string
	hooks ref.Hooks
	after func(p *ref.Proof, vk *ref.VK)
}

// cheats enumerates dishonest provers for an instance: every step of the
// protocol deviated from once, the rest honest (or fitted to the lie).
func cheats(in *instance) []cheat {
	var out []cheat
	com, ci := in.com, in.ci
	n := 1 << com.DegreeBits
	g := ref.PrimRoot(com.DegreeBits)
	add := func(name string, h ref.Hooks) { out = append(out, cheat{name: name, hooks: h}) }
	identity := func(col, row int) bool {
		return col >= com.NumRouted || ci.Sigmas[col][row] == ref.Mul(com.KIs[col], ref.Pow(g, uint64(row)))
	}
	// one wire that only a gate constraint sees, per gate kind
	for gi, gate := range com.Gates {
		if gate.Num == 0 {
			continue
		}
	search:
		for row := n - 1; row >= 0; row-- {
			if ci.Rows[row] != gi {
				continue
			}
			for col := 0; col < gate.Wires; col++ {
				if identity(col, row) {
					row, col := row, col
					add(fmt.Sprintf("gate %s violated in row %d", gate.Name, row), ref.Hooks{Wires: func(w [][]ref.F) { w[col][row] = ref.Add(w[col][row], 1) }})
					break search
				}
			}
		}
	}
	// a copy constraint
	done := false
	for row := 0; row < n && !done; row++ {
		if com.Gates[ci.Rows[row]].Name != "Noop" {
			continue
		}
		for col := 0; col < com.NumRouted && !done; col++ {
			if !identity(col, row) {
				row, col := row, col
				add(fmt.Sprintf("copy constraint violated at %d/%d", col, row), ref.Hooks{Wires: func(w [][]ref.F) { w[col][row] = ref.Add(w[col][row], 1) }})
				done = true
			}
		}
	}
	for i := 0; i < com.NumChallenges; i++ {
		i := i
		add(fmt.Sprintf("Z %d scaled", i), ref.Hooks{Zs: func(z [][]ref.F) {
			for r := range z[i] {
				z[i][r] = ref.Mul(z[i][r], 2)
			}
			for k := 0; k < com.NumPartial; k++ {
				c := z[com.NumChallenges+i*com.NumPartial+k]
				for r := range c {
					c[r] = ref.Mul(c[r], 2)
				}
			}
		}})
		add(fmt.Sprintf("Z %d wrong in one row", i), ref.Hooks{Zs: func(z [][]ref.F) { z[i][3] = ref.Add(z[i][3], 1) }})
		for k := 0; k < com.NumPartial; k++ {
			k := k
			add(fmt.Sprintf("partial product %d of %d wrong in one row", k, i), ref.Hooks{Zs: func(z [][]ref.F) {
				c := z[com.NumChallenges+i*com.NumPartial+k]
				c[5] = ref.Add(c[5], 1)
			}})
		}
		for _, k := range []int{0, com.QDF - 1} {
			k := k
			add(fmt.Sprintf("quotient %d chunk %d wrong", i, k), ref.Hooks{Quotient: func(q [][]ref.F) {
				c := q[i*com.QDF+k]
				c[n-1] = ref.Add(c[n-1], 1)
			}})
		}
	}
	// a broken witness with openings forged to satisfy the identity at zeta
	pih := ref.PIHash(ci.PI)
	forge := func(o *ref.Openings, ch *ref.Challenges) {
		l, r := com.PlonkSides(ch, o, pih)
		zt := ref.ESub(ref.EPow(ch.Zeta, uint64(n)), ref.E{1, 0})
		zi := ref.EInv(zt)
		for i := range l {
			d := ref.EMul(ref.ESub(l[i], r[i]), zi)
			o.Quotients[i*com.QDF] = ref.EAdd(o.Quotients[i*com.QDF], d)
		}
		l, r = com.PlonkSides(ch, o, pih)
		for i := range l {
			if l[i] != r[i] {
				panic("model: forging failed")
			}
		}
	}
	for gi, gate := range com.Gates {
		if gate.Num == 0 || gi > 3 {
			continue
		}
		for row := 0; row < n; row++ {
			if ci.Rows[row] == gi {
				row := row
				add(fmt.Sprintf("gate %s violated, quotient openings forged", gate.Name), ref.Hooks{Wires: func(w [][]ref.F) { w[0][row] = ref.Add(w[0][row], 1) }, Openings: forge})
				break
			}
		}
	}
	add("wire opening changed, quotient openings forged", ref.Hooks{Openings: func(o *ref.Openings, ch *ref.Challenges) {
		o.Wires[0] = ref.EAdd(o.Wires[0], ref.E{0, 1})
		forge(o, ch)
	}})
	add("constant opening changed, quotient openings forged", ref.Hooks{Openings: func(o *ref.Openings, ch *ref.Challenges) {
		o.Constants[0] = ref.EAdd(o.Constants[0], ref.E{1, 0})
		forge(o, ch)
	}})
	add("next-row opening changed, quotient openings forged", ref.Hooks{Openings: func(o *ref.Openings, ch *ref.Challenges) {
		o.ZsNext[len(o.ZsNext)-1] = ref.EAdd(o.ZsNext[len(o.ZsNext)-1], ref.E{0, 5})
		forge(o, ch)
	}})
	// codewords corrupted in half of the positions, the queries ground so that exactly query k hits the corrupted half
	nl := com.DegreeBits + com.RateBits
	hit := func(k, shift int) func(ch *ref.Challenges) bool {
		return func(ch *ref.Challenges) bool {
			for q, x := range ch.Queries {
				bad := x>>(uint(nl)-1)&1 == 1
				if bad != (q == k) {
					return false
				}
			}
			return true
		}
	}
	for k := 0; k < com.NumQueries; k++ {
		k := k
		for li := range com.Arity {
			li := li
			add(fmt.Sprintf("layer %d corrupted where only query %d looks", li, k), ref.Hooks{Codeword: func(l int, v []ref.E) {
				if l == li {
					for i := len(v) / 2; i < len(v); i++ {
						v[i] = ref.EAdd(v[i], ref.E{0, 1})
					}
				}
			}, PowPick: hit(k, 0)})
			add(fmt.Sprintf("query %d: path of layer %d", k, li), ref.Hooks{Round: func(q int, r *ref.Round, _ *ref.Challenges) {
				if q == k {
					pt := r.Steps[li].Path
					if len(pt) > 0 {
						one := new(fr.Element).SetOne()
						pt[len(pt)-1].Add(&pt[len(pt)-1], one)
					} else {
						r.Steps[li].Evals[0][0] = ref.Add(r.Steps[li].Evals[0][0], 1)
					}
				}
			}})
		}
		for t := 0; t < 4; t++ {
			t := t
			add(fmt.Sprintf("query %d: path of tree %d", k, t), ref.Hooks{Round: func(q int, r *ref.Round, _ *ref.Challenges) {
				if q == k {
					pt := r.Leaves[t].Path
					if len(pt) > 0 {
						one := new(fr.Element).SetOne()
						pt[0].Add(&pt[0], one)
					} else {
						r.Leaves[t].Elems[0] = ref.Add(r.Leaves[t].Elems[0], 1)
					}
				}
			}})
			// a leaf changed without changing the combined value: only the authentication sees it
			add(fmt.Sprintf("query %d: leaf of tree %d changed along the combination", k, t), ref.Hooks{Round: func(q int, r *ref.Round, ch *ref.Challenges) {
				if q != k {
					return
				}
				e := r.Leaves[t].Elems
				lo := 0
				if t == 2 {
					lo = com.NumChallenges // Zs are also opened at the next row
				}
				if len(e)-lo < 3 {
					e[0] = ref.Add(e[0], 1)
					return
				}
				// base-field d0,d1 with d0 + d1*alpha + alpha^2 = 0
				a := ch.FriAlpha
				if d0, d1, ok := solve2(ref.E{1, 0}, a, ref.ESub(ref.E{}, ref.EMul(a, a))); ok {
					e[lo], e[lo+1], e[lo+2] = ref.Add(e[lo], d0), ref.Add(e[lo+1], d1), ref.Add(e[lo+2], 1)
				}
			}})
		}
	}
	for j := 0; j < 1<<(com.DegreeBits-4*len(com.Arity)); j++ {
		if n := 1 << (com.DegreeBits - 4*len(com.Arity)); j > 2 && j < n-1 && j != 33 {
			continue
		}
		j := j
		add(fmt.Sprintf("final polynomial coefficient %d.0", j), ref.Hooks{Final: func(c []ref.E) { c[j][0] = ref.Add(c[j][0], 1) }})
		add(fmt.Sprintf("final polynomial coefficient %d.1", j), ref.Hooks{Final: func(c []ref.E) { c[j][1] = ref.Add(c[j][1], 1) }})
	}
	if com.PowBits > 0 {
		add("proof of work not done", ref.Hooks{PowBad: true})
		for b := 0; b < com.PowBits; b++ {
			b := b
			add(fmt.Sprintf("proof of work short by %d bits", b+1), ref.Hooks{PowBad: true, PowPick: func(ch *ref.Challenges) bool {
				return ch.PowResp>>(64-uint(com.PowBits)) == 1<<b
			}})
		}
	}
	// the statement or key of another circuit
	other := func() *ref.Circuit { return ref.NewCircuit(com, 424242) }
	out = append(out, cheat{"key of another circuit", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) { *vk = *cloneVK(other().VK()) }},
		cheat{"digest of another circuit", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) { vk.Digest = other().VK().Digest }},
		cheat{"constants commitment of another circuit", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) { vk.Cap = other().VK().Cap }},
	)
	if len(ci.PI) > 1 {
		out = append(out, cheat{"public inputs exchanged", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) {
			l := len(p.PI) - 1
			p.PI[0], p.PI[l] = p.PI[l], p.PI[0]
		}}, cheat{"public inputs of another statement", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) {
			copy(p.PI, other().PI)
		}})
	}
	if com.NumQueries > 1 {
		out = append(out, cheat{"query rounds exchanged", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) {
			p.Rounds[0], p.Rounds[1] = p.Rounds[1], p.Rounds[0]
		}}, cheat{"first query round repeated", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) {
			for i := range p.Rounds {
				p.Rounds[i] = p.Rounds[0]
			}
		}})
	}
	if len(com.Arity) > 1 {
		out = append(out, cheat{"layer caps exchanged", ref.Hooks{}, func(p *ref.Proof, vk *ref.VK) {
			p.CommitCaps[0], p.CommitCaps[1] = p.CommitCaps[1], p.CommitCaps[0]
		}})
	}
	return out
}

func init() {
	reg("C24", func(c *Ctx) {
		c.Assume("dishonest provers deviate from the honest one in one protocol step (and fit later steps to the lie); advice deviates at one hint per execution (two within a window in the thorough tier), from the attack menu of the engine")
		ins := smallInstances()
		if c.Thorough() {
			ins = append(ins, gateInstances()...)
			ins = append(ins, configInstances(false)...)
		}
		type job struct {
			in *instance
			ch cheat
		}
		var jobs []job
		c.Par(len(ins), func(i int) { ins[i].init() })
		for _, in := range ins {
			for _, ch := range cheats(in) {
				jobs = append(jobs, job{in, ch})
			}
		}
		large := map[string]string{"wide": "forged|query 1|copy|quotient 1 chunk 7|Z 1 scaled", "coeffs": "quotient 3|Z 3|forged|polynomial|copy constraint|partial product . of 3", "queries": "query 39: (path|leaf)|query 28: leaf of tree 1", "deep3": "query 1: path of layer 2"}
		li := largeInstances()
		c.Par(len(li), func(i int) { li[i].init() })
		for _, in := range li {
			n, re := 0, regexp.MustCompile(large[in.name])
			for _, ch := range cheats(in) {
				if re.MatchString(ch.name) {
					if n++; c.Thorough() && in.name != "deep3" || n <= 12 || n%8 == 0 && n < 60 {
						jobs = append(jobs, job{in, ch})
					}
				}
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			p := cloneProof(j.in.ci.Prove(j.ch.hooks))
			vk := cloneVK(j.in.vk)
			if j.ch.after != nil {
				j.ch.after(p, vk)
			}
			err := j.in.com.Verify(vk, p)
			name := j.in.name + ": " + j.ch.name
			if err == nil {
				panic("model: dishonest proof accepted: " + name)
			}
			res, core := runVerify(j.in.com, vk, p, runOpt{mode: eng.Native})
			defer core.Release()
			c.Account(res)
			c.Trace(1)
			if res.Panic == nil && res.Err == nil && res.BaseOK {
				c.Violate(name, name, "the verifier circuit accepts an invalid proof (%s); plonky2 rejects it: %v", name, err)
			}
			if i%17 == 0 {
				c.Sample(fmt.Sprintf("%s: rejected (reference: %v)", name, err))
			}
		})
		c.Set("dishonest_proofs", len(jobs))
		if c.Enough0() {
			return
		}
		// advice: every hint of a verification run answered differently
		type att struct {
			in       *instance
			vk       *ref.VK
			p        *ref.Proof
			bad      string
			mode     eng.Mode
			from, to int
			opt      eng.Options
		}
		var atts []att
		in := ins[0]
		res, core := runVerify(in.com, in.vk, in.p, runOpt{mode: eng.Native})
		core.Release()
		c.Set("hints_per_run", res.Hints)
		bads := cheats(in)
		chunk := 1500
		stride := 1
		if !c.Thorough() {
			stride = 4
		}
		for f, k := 0, 0; f < res.Hints; f, k = f+chunk, k+1 {
			if k%stride == 0 {
				atts = append(atts, att{in: in, vk: in.vk, p: in.p, mode: eng.Native, from: f, to: f + chunk, opt: attack(eng.Small, 1, 0)})
			}
			if k%stride == 2%stride {
				// the same for invalid proofs, in turn
				for x := 0; x < stride; x += 2 {
					ch := bads[(k+x)%len(bads)]
					p, vk := cloneProof(in.ci.Prove(ch.hooks)), cloneVK(in.vk)
					if ch.after != nil {
						ch.after(p, vk)
					}
					atts = append(atts, att{in: in, vk: vk, p: p, bad: ch.name, mode: eng.Native, from: f, to: f + chunk, opt: attack(eng.Small, 1, 0)})
				}
			}
		}
		c.Par(len(atts), func(i int) {
			a := atts[i]
			o := a.opt
			o.From, o.To = a.from, a.to
			res, core := runVerify(a.in.com, a.vk, a.p, runOpt{mode: a.mode, opt: o})
			defer core.Release()
			c.Account(res)
			if a.bad != "" {
				c.Count("advice_deviations_invalid_proof", res.Forks)
				for _, l := range res.Alive {
					c.Violate(caseKey("advice", a.in.name, a.bad, a.from), core.Trace(l), "dishonest advice makes an invalid proof (%s) pass: %v", a.bad, core.Trace(l))
					break
				}
				return
			}
			if res.Panic != nil || res.Err != nil || !res.BaseOK {
				c.Violate("attack base", nil, "valid proof rejected: %v %s", res.Panic, res.BaseFail)
				return
			}
			c.Count("advice_deviations", res.Forks)
			for _, l := range res.Alive {
				c.Violate(caseKey("advice", a.in.name, a.from), core.Trace(l), "verification of a valid proof has a second satisfying advice assignment: %v", core.Trace(l))
				break
			}
		})
	})
}
