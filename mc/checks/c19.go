package checks

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

var digits = regexp.MustCompile(`\d+`)

func laneSet(ls []int32) map[int32]bool {
	m := map[int32]bool{}
	for _, l := range ls {
		m[l] = true
	}
	return m
}

func init() {
	reg("C19", func(c *Ctx) {
		c.Assume("every Goldilocks position of generated proofs and of a recorded proof, encoded as v+p, v+2^64, v-r and v+2p; leaf elements additionally with commitments made to the non-canonical encodings, so that nothing but the range check can reject them; public inputs are not covered (reduced by design)")
		insts := append(smallInstances(), largeInstances()...)
		rec := recorded("step")
		// (1) every position
		type job struct {
			s      *instance
			from   int
			to     int
			off    *ref.Offsets
			name   string
			consts bool // the proof is given as constants (as the ready-made circuit around one proof does)
			enc    *big.Int
		}
		var jobs []job
		c.Par(len(insts), func(i int) { insts[i].init() })
		for _, s := range insts {
			n := len(sites(s.p, s.vk))
			jobs = append(jobs, job{s: s, from: 0, to: n})
			// (2) commitments to non-canonical encodings
			for t := 0; t < 4; t++ {
				cols := len(s.p.Rounds[0].Leaves[t].Elems)
				for e := 0; e < cols; e++ {
					if s.name == "deep3" || !c.Thorough() && (s.name == "wide" && e%37 > 0 && e < cols-1 || s.name == "coeffs" && t < 3 || s.name == "queries" && e != t) {
						continue
					}
					o := &ref.Offsets{}
					o.Leaf[t] = map[int]uint64{e: 1}
					jobs = append(jobs, job{s: s, off: o, name: fmt.Sprintf("tree %d column %d", t, e)})
					if (s.name == "fold1" || s.name == "noop-const") && (e == 0 || e == cols-1 || c.Thorough()) {
						jobs = append(jobs, job{s: s, off: o, consts: true, name: fmt.Sprintf("tree %d column %d", t, e)})
					}
				}
			}
			for l := range s.com.Arity {
				for e := 0; e < 32; e++ {
					if !c.Thorough() && (s.name == "fold2" && e%4 != l || s.name == "wide" && e != 9 || s.name == "queries" && e != 30) || s.name == "deep3" && (l < 2 || e%31 > 0) {
						continue
					}
					o := &ref.Offsets{Step: make([]map[int]uint64, len(s.com.Arity))}
					o.Step[l] = map[int]uint64{e: 1}
					jobs = append(jobs, job{s: s, off: o, name: fmt.Sprintf("layer %d coefficient %d", l, e)})
					if s.name == "fold1" && (e%10 == 1 || c.Thorough()) {
						jobs = append(jobs, job{s: s, off: o, consts: true, name: fmt.Sprintf("layer %d coefficient %d", l, e)})
					}
				}
			}
		}
		// (3) the same in circuits around a constant proof: each kind of position
		for _, s := range insts[:2] {
			seen := map[string]int{}
			for x, st := range sites(s.p, s.vk) {
				if st.F == nil || strings.HasPrefix(st.Name, "pi[") {
					continue
				}
				k := digits.ReplaceAllString(st.Name, "#")
				if seen[k]++; seen[k] > 2 && !c.Thorough() {
					continue
				}
				jobs = append(jobs, job{s: s, from: x, consts: true, name: st.Name + " v+p", enc: nonCanon(*st.F, 1)})
				if seen[k] == 1 {
					jobs = append(jobs, job{s: s, from: x, consts: true, name: st.Name + " v-p mod r", enc: new(big.Int).Sub(fr.Modulus(), new(big.Int).Sub(u(ref.P), u(*st.F)))})
				}
			}
		}
		n := len(sites(rec.p, rec.vk))
		parts := 8
		for k := 0; k < parts; k++ {
			jobs = append(jobs, job{s: rec, from: n * k / parts, to: n * (k + 1) / parts})
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[len(jobs)-1-i]
			s := j.s
			if j.enc != nil {
				res, core := runVerify(s.com, s.vk, s.p, runOpt{consts: true, shape: func(p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData) {
					siteVars(p, vk)[j.from].V.SetBigInt(j.enc)
				}})
				c.Account(res)
				if res.Panic == nil && res.Err == nil && res.BaseOK {
					c.Violate(caseKey(s.name, "constant "+j.name), map[string]any{"instance": s.String(), "position": j.name}, "a circuit around a proof whose %s is given as a non-canonical constant is satisfiable", j.name)
				}
				c.Trace(1)
				c.Count("constant_encodings", 1)
				core.Release()
				return
			}
			if j.off != nil {
				p := s.ci.Prove(ref.Hooks{Off: j.off})
				vk := cloneVK(s.vk)
				if p.VKCap != nil {
					vk.Cap = p.VKCap
				}
				if err := s.com.VerifyLax(vk, p); err != nil {
					panic("model: proof with non-canonical encodings is inconsistent: " + err.Error())
				}
				res, core := runVerify(s.com, vk, p, runOpt{consts: j.consts})
				c.Account(res)
				if !j.consts && (res.Panic != nil || res.Err != nil) {
					c.Violate(caseKey(s.name, j.name), nil, "a well-formed proof was refused: %s", clip(res.BaseFail))
				} else if res.Panic == nil && res.Err == nil && res.BaseOK {
					c.Violate(caseKey(s.name, j.name), map[string]any{"instance": s.String(), "position": j.name, "constant": j.consts}, "a proof whose %s is committed and opened as v+p is accepted", j.name)
				}
				c.Trace(1)
				c.Count("committed_encodings", 1)
				core.Release()
				return
			}
			ss := sites(s.p, s.vk)
			type tl struct {
				id   int32
				name string
			}
			var tls []tl
			res, core := runVerify(s.com, s.vk, s.p, runOpt{lanes: func(core *eng.Core, vars []*eng.Var) {
				for x := j.from; x < j.to; x++ {
					if ss[x].F == nil || strings.HasPrefix(ss[x].Name, "pi[") {
						continue
					}
					vs := []*big.Int{nonCanon(*ss[x].F, 1)}
					if s != rec || c.Thorough() {
						vs = append(vs, new(big.Int).Add(u(*ss[x].F), new(big.Int).Lsh(big.NewInt(1), 64)), nonCanon(*ss[x].F, 2),
							new(big.Int).Sub(fr.Modulus(), new(big.Int).Sub(u(ref.P), u(*ss[x].F))), u(ref.P))
					}
					for z, y := range vs {
						id := core.InputLane()
						core.SetAlt(vars[x], id, y)
						tls = append(tls, tl{id, fmt.Sprintf("%s encoding %d", ss[x].Name, z)})
					}
				}
			}})
			c.Account(res)
			key := s.name
			if !res.BaseOK {
				c.Violate(key, s.String(), "a valid proof is rejected: %s", clip(res.BaseFail))
				return
			}
			al := laneSet(res.Alive)
			for _, t := range tls {
				if al[t.id] {
					c.Violate(key+"/"+t.name, map[string]any{"instance": s.String(), "position": t.name}, "non-canonical encoding accepted: %s", t.name)
				}
				c.Trace(1)
			}
			c.Count("encodings", int64(len(tls)))
			core.Release()
		})
		c.Sample("q0.leaf1[3] := v+p with the wires tree committed over the same encoding")
	})

	reg("C20", func(c *Ctx) {
		c.Assume("every list of the proof, key and statement shortened, lengthened or emptied, elements moved between neighbouring lists, and the circuit description changed in each size while the proof stays")
		insts := smallInstances()[:2]
		if c.Thorough() {
			insts = smallInstances()
		}
		c.Par(len(insts), func(i int) { insts[i].init() })
		type job struct {
			s    *instance
			name string
			f    func(p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData)
			com  func(d *types.CommonCircuitData)
		}
		var jobs []job
		type PV = variables.ProofWithPublicInputs
		type KV = variables.VerifierOnlyCircuitData
		// the last parts of proofs longer than usual
		large := largeInstances()
		c.Par(len(large), func(i int) { large[i].init() })
		re := map[string]*regexp.Regexp{"wide": regexp.MustCompile("^(wires|sigmas|partial products)$|round 1: tree [12] leaf"), "coeffs": regexp.MustCompile("^(public inputs|final polynomial|zs|zsnext|quotients|partial products)$"),
			"deep3": regexp.MustCompile("^folding|round 1: step"), "queries": regexp.MustCompile("^query rounds|round 39: (tree|step)|round 20: (tree 3|step)")}
		for _, s := range large {
			for _, l := range shapeLists(s) {
				if !re[s.name].MatchString(l.name) {
					continue
				}
				for i, op := range l.ops {
					op, l := op, l
					if i%3 == 0 || c.Thorough() {
						jobs = append(jobs, job{s: s, name: l.name + " " + op, f: func(p *PV, vk *KV) { l.apply(p, vk, op) }})
					}
				}
			}
		}
		for _, s := range insts {
			add := func(name string, f func(p *PV, vk *KV)) { jobs = append(jobs, job{s: s, name: name, f: f}) }
			for li, l := range shapeLists(s) {
				for _, op := range l.ops {
					op := op
					l := l
					_ = li
					add(l.name+" "+op, func(p *PV, vk *KV) { l.apply(p, vk, op) })
				}
			}
			// moves between opening lists keep the total number of openings
			ol := []struct {
				n string
				f func(p *PV) *[]gl.QuadraticExtensionVariable
			}{
				{"constants", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.Constants }},
				{"sigmas", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.PlonkSigmas }},
				{"wires", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.Wires }},
				{"zs", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.PlonkZs }},
				{"partials", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.PartialProducts }},
				{"quotients", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.QuotientPolys }},
				{"zsnext", func(p *PV) *[]gl.QuadraticExtensionVariable { return &p.Proof.Openings.PlonkZsNext }},
			}
			for i := 0; i+1 < len(ol); i++ {
				a, b := ol[i], ol[i+1]
				if pp := proofVars(s.p); len(*a.f(&pp)) > 0 {
					add("last of "+a.n+" moved to "+b.n, func(p *PV, _ *KV) {
						x, y := a.f(p), b.f(p)
						e := (*x)[len(*x)-1]
						*x = (*x)[: len(*x)-1 : len(*x)-1]
						*y = append([]gl.QuadraticExtensionVariable{e}, *y...)
					})
				}
				if pp := proofVars(s.p); len(*b.f(&pp)) > 0 {
					add("first of "+b.n+" moved to "+a.n, func(p *PV, _ *KV) {
						x, y := a.f(p), b.f(p)
						*x = append((*x)[:len(*x):len(*x)], (*y)[0])
						*y = (*y)[1:]
					})
				}
			}
			com := func(name string, f func(d *types.CommonCircuitData)) {
				jobs = append(jobs, job{s: s, name: name, com: f})
			}
			for _, d := range []int{-1, 1} {
				dd := uint64(int64(d))
				com(fmt.Sprintf("config: query rounds %+d", d), func(x *types.CommonCircuitData) {
					x.Config.FriConfig.NumQueryRounds += dd
					x.FriParams.Config.NumQueryRounds += dd
				})
				com(fmt.Sprintf("config: query rounds of fri params only %+d", d), func(x *types.CommonCircuitData) { x.FriParams.Config.NumQueryRounds += dd })
				com(fmt.Sprintf("config: public inputs %+d", d), func(x *types.CommonCircuitData) { x.NumPublicInputs += dd })
				com(fmt.Sprintf("config: degree bits %+d", d), func(x *types.CommonCircuitData) { x.DegreeBits += dd; x.FriParams.DegreeBits += dd })
				com(fmt.Sprintf("config: fri degree bits only %+d", d), func(x *types.CommonCircuitData) { x.FriParams.DegreeBits += dd })
				com(fmt.Sprintf("config: rate bits %+d", d), func(x *types.CommonCircuitData) {
					x.Config.FriConfig.RateBits += dd
					x.FriParams.Config.RateBits += dd
				})
				com(fmt.Sprintf("config: cap height %+d", d), func(x *types.CommonCircuitData) {
					x.Config.FriConfig.CapHeight += dd
					x.FriParams.Config.CapHeight += dd
				})
				com(fmt.Sprintf("config: wires %+d", d), func(x *types.CommonCircuitData) { x.Config.NumWires += dd })
				com(fmt.Sprintf("config: constants %+d", d), func(x *types.CommonCircuitData) { x.NumConstants += dd })
				com(fmt.Sprintf("config: quotient factor %+d", d), func(x *types.CommonCircuitData) { x.QuotientDegreeFactor += dd })
				com(fmt.Sprintf("config: challenges %+d", d), func(x *types.CommonCircuitData) { x.Config.NumChallenges += dd })
				if s.com.NumPartial > 0 || d > 0 {
					com(fmt.Sprintf("config: partial products %+d", d), func(x *types.CommonCircuitData) { x.NumPartialProducts += dd })
				}
			}
			com("config: one folding layer more", func(x *types.CommonCircuitData) {
				x.FriParams.ReductionArityBits = append([]uint64{4}, x.FriParams.ReductionArityBits...)
			})
			if len(s.com.Arity) > 0 {
				com("config: one folding layer less", func(x *types.CommonCircuitData) { x.FriParams.ReductionArityBits = x.FriParams.ReductionArityBits[1:] })
				com("config: arity 3", func(x *types.CommonCircuitData) {
					x.FriParams.ReductionArityBits = append([]uint64{3}, x.FriParams.ReductionArityBits[1:]...)
				})
				com("config: arity 5", func(x *types.CommonCircuitData) {
					x.FriParams.ReductionArityBits = append([]uint64{5}, x.FriParams.ReductionArityBits[1:]...)
				})
			}
		}
		c.Set("shapes", len(jobs))
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			o := runOpt{shape: j.f}
			if j.com != nil {
				d := commonData(j.s.com)
				j.com(&d)
				o.common = &d
			}
			res, core := runVerify(j.s.com, j.s.vk, j.s.p, o)
			c.Account(res)
			if res.Panic == nil && res.Err == nil {
				c.Violate(caseKey(j.s.name, j.name), map[string]any{"instance": j.s.String(), "shape": j.name}, "wrong shape (%s) is not refused (satisfiable: %v)", j.name, res.BaseOK)
			}
			c.Trace(1)
			core.Release()
		})
		// the unchanged shapes are built
		c.Par(len(insts), func(i int) {
			res, core := runVerify(insts[i].com, insts[i].vk, insts[i].p, runOpt{})
			if !res.BaseOK {
				c.Violate(caseKey(insts[i].name, "honest"), nil, "valid proof refused: %s", clip(res.BaseFail))
			}
			core.Release()
		})
		c.Sample("query round 1: tree 2 leaf longer by one")
	})
}

// shapeList is one list of the proof.
type shapeList struct {
	name  string
	ops   []string
	apply func(p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData, op string)
}

func reshape[T any](l []T, op string) []T {
	n := append([]T(nil), l...)
	switch op {
	case "without last":
		return n[:len(n)-1]
	case "without last (spare capacity)":
		return n[: len(n)-1 : len(n)]
	case "without first":
		return n[1:]
	case "with last repeated":
		return append(n, n[len(n)-1])
	case "with first repeated":
		return append([]T{n[0]}, n...)
	case "emptied":
		return nil
	case "doubled":
		return append(n, n...)
	}
	panic(op)
}

var shapeOps = []string{"without last", "without last (spare capacity)", "without first", "with last repeated", "with first repeated", "emptied", "doubled"}

// shapeLists enumerates every list of an instance's proof, key and statement.
func shapeLists(s *instance) []shapeList {
	type PV = variables.ProofWithPublicInputs
	type KV = variables.VerifierOnlyCircuitData
	var out []shapeList
	add := func(name string, n int, f func(p *PV, vk *KV, op string)) {
		ops := shapeOps
		if n == 0 {
			return
		}
		if n == 1 {
			ops = []string{"without last", "with last repeated"}
		}
		out = append(out, shapeList{name, ops, f})
	}
	p0 := s.p
	add("public inputs", len(p0.PI), func(p *PV, _ *KV, op string) { p.PublicInputs = reshape(p.PublicInputs, op) })
	add("key cap", 16, func(_ *PV, k *KV, op string) { k.ConstantSigmasCap = reshape(k.ConstantSigmasCap, op) })
	add("wires cap", 16, func(p *PV, _ *KV, op string) { p.Proof.WiresCap = reshape(p.Proof.WiresCap, op) })
	add("zs cap", 16, func(p *PV, _ *KV, op string) {
		p.Proof.PlonkZsPartialProductsCap = reshape(p.Proof.PlonkZsPartialProductsCap, op)
	})
	add("quotient cap", 16, func(p *PV, _ *KV, op string) { p.Proof.QuotientPolysCap = reshape(p.Proof.QuotientPolysCap, op) })
	add("constants", len(p0.Open.Constants), func(p *PV, _ *KV, op string) { p.Proof.Openings.Constants = reshape(p.Proof.Openings.Constants, op) })
	add("sigmas", len(p0.Open.Sigmas), func(p *PV, _ *KV, op string) {
		p.Proof.Openings.PlonkSigmas = reshape(p.Proof.Openings.PlonkSigmas, op)
	})
	add("wires", len(p0.Open.Wires), func(p *PV, _ *KV, op string) { p.Proof.Openings.Wires = reshape(p.Proof.Openings.Wires, op) })
	add("zs", len(p0.Open.Zs), func(p *PV, _ *KV, op string) { p.Proof.Openings.PlonkZs = reshape(p.Proof.Openings.PlonkZs, op) })
	add("zsnext", len(p0.Open.ZsNext), func(p *PV, _ *KV, op string) {
		p.Proof.Openings.PlonkZsNext = reshape(p.Proof.Openings.PlonkZsNext, op)
	})
	add("partial products", len(p0.Open.Partials), func(p *PV, _ *KV, op string) {
		p.Proof.Openings.PartialProducts = reshape(p.Proof.Openings.PartialProducts, op)
	})
	add("quotients", len(p0.Open.Quotients), func(p *PV, _ *KV, op string) {
		p.Proof.Openings.QuotientPolys = reshape(p.Proof.Openings.QuotientPolys, op)
	})
	add("final polynomial", len(p0.FinalPoly), func(p *PV, _ *KV, op string) {
		p.Proof.OpeningProof.FinalPoly.Coeffs = reshape(p.Proof.OpeningProof.FinalPoly.Coeffs, op)
	})
	add("folding commitments", len(p0.CommitCaps), func(p *PV, _ *KV, op string) {
		p.Proof.OpeningProof.CommitPhaseMerkleCaps = reshape(p.Proof.OpeningProof.CommitPhaseMerkleCaps, op)
	})
	for i := range p0.CommitCaps {
		add(fmt.Sprintf("folding cap %d", i), 16, func(p *PV, _ *KV, op string) {
			x := &p.Proof.OpeningProof.CommitPhaseMerkleCaps[i]
			*x = reshape(*x, op)
		})
	}
	add("query rounds", len(p0.Rounds), func(p *PV, _ *KV, op string) {
		p.Proof.OpeningProof.QueryRoundProofs = reshape(p.Proof.OpeningProof.QueryRoundProofs, op)
	})
	if len(p0.CommitCaps) == 0 {
		out = append(out, shapeList{"folding commitments", []string{"one surplus"}, func(p *PV, _ *KV, op string) {
			p.Proof.OpeningProof.CommitPhaseMerkleCaps = append(p.Proof.OpeningProof.CommitPhaseMerkleCaps, p.Proof.WiresCap)
		}})
	}
	for q := range p0.Rounds {
		add(fmt.Sprintf("round %d: trees", q), 4, func(p *PV, _ *KV, op string) {
			x := &p.Proof.OpeningProof.QueryRoundProofs[q].InitialTreesProof.EvalsProofs
			*x = reshape(*x, op)
		})
		for t := range p0.Rounds[q].Leaves {
			add(fmt.Sprintf("round %d: tree %d leaf", q, t), len(p0.Rounds[q].Leaves[t].Elems), func(p *PV, _ *KV, op string) {
				x := &p.Proof.OpeningProof.QueryRoundProofs[q].InitialTreesProof.EvalsProofs[t].Elements
				*x = reshape(*x, op)
			})
			add(fmt.Sprintf("round %d: tree %d path", q, t), len(p0.Rounds[q].Leaves[t].Path), func(p *PV, _ *KV, op string) {
				x := &p.Proof.OpeningProof.QueryRoundProofs[q].InitialTreesProof.EvalsProofs[t].MerkleProof.Siblings
				*x = reshape(*x, op)
			})
		}
		add(fmt.Sprintf("round %d: steps", q), len(p0.Rounds[q].Steps), func(p *PV, _ *KV, op string) {
			x := &p.Proof.OpeningProof.QueryRoundProofs[q].Steps
			*x = reshape(*x, op)
		})
		for t := range p0.Rounds[q].Steps {
			add(fmt.Sprintf("round %d: step %d evals", q, t), 16, func(p *PV, _ *KV, op string) {
				x := &p.Proof.OpeningProof.QueryRoundProofs[q].Steps[t].Evals
				*x = reshape(*x, op)
			})
			if len(p0.Rounds[q].Steps[t].Path) == 0 {
				out = append(out, shapeList{fmt.Sprintf("round %d: step %d path", q, t), []string{"one surplus"}, func(p *PV, _ *KV, op string) {
					x := &p.Proof.OpeningProof.QueryRoundProofs[q].Steps[t].MerkleProof.Siblings
					*x = append(*x, frontend.Variable(eng.NewVar(1)))
				}})
			}
			add(fmt.Sprintf("round %d: step %d path", q, t), len(p0.Rounds[q].Steps[t].Path), func(p *PV, _ *KV, op string) {
				x := &p.Proof.OpeningProof.QueryRoundProofs[q].Steps[t].MerkleProof.Siblings
				*x = reshape(*x, op)
			})
		}
	}
	return out
}
