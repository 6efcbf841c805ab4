package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"

	"verifmc/ref"
)

// jnode is a JSON value with exact numbers, read without the code under test.
type jnode struct{ v any }

func jread(path string) jnode {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return jnode{v}
}
func (j jnode) k(s ...string) jnode {
	for _, x := range s {
		v, ok := j.v.(map[string]any)[x]
		if !ok {
			panic("missing " + x)
		}
		j = jnode{v}
	}
	return j
}
func (j jnode) list() []jnode {
	var o []jnode
	for _, x := range j.v.([]any) {
		o = append(o, jnode{x})
	}
	return o
}
func (j jnode) u() uint64 {
	var x uint64
	if _, err := fmt.Sscan(j.v.(json.Number).String(), &x); err != nil {
		panic(err)
	}
	return x
}
func (j jnode) i() int { return int(j.u()) }
func (j jnode) h() fr.Element {
	var e fr.Element
	if _, err := e.SetString(j.v.(string)); err != nil {
		panic(err)
	}
	return e
}
func (j jnode) hs() []fr.Element {
	var o []fr.Element
	for _, x := range j.list() {
		o = append(o, x.h())
	}
	return o
}
func (j jnode) fs() []ref.F {
	var o []ref.F
	for _, x := range j.list() {
		o = append(o, x.u())
	}
	return o
}
func (j jnode) es() []ref.E {
	var o []ref.E
	for _, x := range j.list() {
		l := x.list()
		o = append(o, ref.E{l[0].u(), l[1].u()})
	}
	return o
}

// gateByID finds the model of an identifier among all parameterisations.
func gateByID(id string) ref.Gate {
	if strings.HasPrefix(id, "CosetInterpolationGate") {
		var b, d int
		if _, err := fmt.Sscanf(id, "CosetInterpolationGate { subgroup_bits: %d, degree: %d,", &b, &d); err != nil {
			panic(err)
		}
		var ws []ref.F
		for _, w := range strings.Split(id[strings.Index(id, "[")+1:strings.Index(id, "]")], ", ") {
			var x uint64
			fmt.Sscan(w, &x)
			ws = append(ws, x)
		}
		g := ref.GCosetInterpolationW(b, d, ws)
		for i, w := range ref.BaryWeights(b) {
			if ws[i]%ref.P != w {
				panic("weights of the recorded gate are not the barycentric weights")
			}
		}
		if g.ID != id {
			panic("identifier not reproduced")
		}
		return g
	}
	for _, g := range gateSet(true) {
		if g.ID == id {
			return g
		}
	}
	panic("no model for gate " + id)
}

// loadRecorded reads a recorded proof independently of the code under test.
func loadRecorded(dir string) (*ref.Common, *ref.VK, *ref.Proof) {
	j := jread(dir + "/common_circuit_data.json")
	c := &ref.Common{}
	cf := j.k("config")
	c.NumWires, c.NumRouted, c.NumChallenges = cf.k("num_wires").i(), cf.k("num_routed_wires").i(), cf.k("num_challenges").i()
	fp := j.k("fri_params")
	fc := fp.k("config")
	c.RateBits, c.CapHeight, c.PowBits, c.NumQueries = fc.k("rate_bits").i(), fc.k("cap_height").i(), fc.k("proof_of_work_bits").i(), fc.k("num_query_rounds").i()
	c.DegreeBits = fp.k("degree_bits").i()
	for _, a := range fp.k("reduction_arity_bits").list() {
		c.Arity = append(c.Arity, a.i())
	}
	for _, g := range j.k("gates").list() {
		c.Gates = append(c.Gates, gateByID(g.v.(string)))
	}
	for _, s := range j.k("selectors_info", "selector_indices").list() {
		c.SelIdx = append(c.SelIdx, s.i())
	}
	for _, g := range j.k("selectors_info", "groups").list() {
		c.Groups = append(c.Groups, [2]int{g.k("start").i(), g.k("end").i()})
	}
	c.QDF, c.NumGateConstraints, c.NumConstants, c.NumPI, c.NumPartial = j.k("quotient_degree_factor").i(), j.k("num_gate_constraints").i(), j.k("num_constants").i(), j.k("num_public_inputs").i(), j.k("num_partial_products").i()
	c.KIs = j.k("k_is").fs()
	j = jread(dir + "/verifier_only_circuit_data.json")
	vk := &ref.VK{Cap: j.k("constants_sigmas_cap").hs(), Digest: j.k("circuit_digest").h()}
	j = jread(dir + "/proof_with_public_inputs.json")
	p := &ref.Proof{PI: j.k("public_inputs").fs()}
	pr := j.k("proof")
	p.WiresCap, p.ZsCap, p.QuotientCap = pr.k("wires_cap").hs(), pr.k("plonk_zs_partial_products_cap").hs(), pr.k("quotient_polys_cap").hs()
	o := pr.k("openings")
	p.Open = ref.Openings{Constants: o.k("constants").es(), Sigmas: o.k("plonk_sigmas").es(), Wires: o.k("wires").es(), Zs: o.k("plonk_zs").es(), ZsNext: o.k("plonk_zs_next").es(), Partials: o.k("partial_products").es(), Quotients: o.k("quotient_polys").es()}
	op := pr.k("opening_proof")
	for _, x := range op.k("commit_phase_merkle_caps").list() {
		p.CommitCaps = append(p.CommitCaps, x.hs())
	}
	for _, q := range op.k("query_round_proofs").list() {
		var r ref.Round
		for _, e := range q.k("initial_trees_proof", "evals_proofs").list() {
			l := e.list()
			r.Leaves = append(r.Leaves, ref.Leaf{Elems: l[0].fs(), Path: l[1].k("siblings").hs()})
		}
		for _, s := range q.k("steps").list() {
			r.Steps = append(r.Steps, ref.Step{Evals: s.k("evals").es(), Path: s.k("merkle_proof", "siblings").hs()})
		}
		p.Rounds = append(p.Rounds, r)
	}
	p.FinalPoly = op.k("final_poly", "coeffs").es()
	p.Pow = op.k("pow_witness").u()
	return c, vk, p
}
