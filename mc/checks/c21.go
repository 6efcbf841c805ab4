package checks

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

// docGen builds a document of distinct values.
type docGen struct{ n uint64 }

func (d *docGen) num() any { d.n++; return json.Number(fmt.Sprint(1000 + d.n)) }

// full-width distinct field value
func (d *docGen) f() any {
	d.n++
	return json.Number(fmt.Sprint(d.n*0x9E3779B97F4A7C15 | 1<<63))
}
func (d *docGen) h() any {
	d.n++
	x := new(big.Int).SetUint64(d.n)
	x.Exp(x, big.NewInt(61), fr.Modulus())
	x.Mul(x, big.NewInt(0x1234567)).Mod(x, fr.Modulus())
	return x.String()
}
func (d *docGen) list(n int, f func() any) any {
	o := make([]any, n)
	for i := range o {
		o[i] = f()
	}
	return o
}
func (d *docGen) hs(n int) any { return d.list(n, d.h) }
func (d *docGen) fs(n int) any { return d.list(n, d.f) }
func (d *docGen) es(n int) any { return d.list(n, func() any { return d.fs(2) }) }

func (d *docGen) proof() any {
	m := map[string]any{}
	m["wires_cap"], m["plonk_zs_partial_products_cap"], m["quotient_polys_cap"] = d.hs(2), d.hs(3), d.hs(2)
	m["openings"] = map[string]any{"constants": d.es(2), "plonk_sigmas": d.es(3), "wires": d.es(2), "plonk_zs": d.es(2), "plonk_zs_next": d.es(2), "partial_products": d.es(3), "quotient_polys": d.es(2)}
	round := func() any {
		ev := d.list(4, func() any { return []any{d.fs(3), map[string]any{"siblings": d.hs(2)}} })
		st := d.list(2, func() any {
			return map[string]any{"evals": d.es(3), "merkle_proof": map[string]any{"siblings": d.hs(2)}}
		})
		return map[string]any{"initial_trees_proof": map[string]any{"evals_proofs": ev}, "steps": st}
	}
	m["opening_proof"] = map[string]any{"commit_phase_merkle_caps": d.list(2, func() any { return d.hs(2) }), "query_round_proofs": d.list(2, round), "final_poly": map[string]any{"coeffs": d.es(2)}, "pow_witness": d.f()}
	return map[string]any{"proof": m, "public_inputs": d.fs(3)}
}
func (d *docGen) vk() any {
	return map[string]any{"constants_sigmas_cap": d.hs(3), "circuit_digest": d.h()}
}
func (d *docGen) common() any {
	fc := func() any {
		return map[string]any{"rate_bits": d.num(), "cap_height": d.num(), "proof_of_work_bits": d.num(), "reduction_strategy": map[string]any{"ConstantArityBits": []any{json.Number("4"), json.Number("5")}}, "num_query_rounds": d.num()}
	}
	return map[string]any{
		"config": map[string]any{"num_wires": d.num(), "num_routed_wires": d.num(), "num_constants": d.num(), "use_base_arithmetic_gate": true, "security_bits": d.num(), "num_challenges": d.num(),
			"zero_knowledge": false, "max_quotient_degree_factor": d.num(), "fri_config": fc()},
		"fri_params": map[string]any{"config": fc(), "hiding": false, "degree_bits": d.num(), "reduction_arity_bits": d.list(3, d.num)},
		"gates":      []any{"NoopGate", "PublicInputGate", "PoseidonMdsGate(PhantomData<x>)<WIDTH=12>", "a \"quoted\" <id>\\\u2028"},
		"selectors_info": map[string]any{"selector_indices": d.list(4, d.num), "groups": d.list(3, func() any {
			return map[string]any{"start": d.num(), "end": d.num()}
		})},
		"quotient_degree_factor": d.num(), "num_gate_constraints": d.num(), "num_constants": d.num(), "num_public_inputs": d.num(), "k_is": d.fs(3), "num_partial_products": d.num(),
		"num_lookup_polys": json.Number("0"), "luts": []any{},
	}
}

// flatDoc lists every leaf and list length of a document by path.
func flatDoc(path string, v any, out map[string]string) {
	switch x := v.(type) {
	case map[string]any:
		for k, y := range x {
			flatDoc(path+"."+k, y, out)
		}
	case []any:
		out[path+".len"] = fmt.Sprint(len(x))
		for i, y := range x {
			flatDoc(fmt.Sprintf("%s.%d", path, i), y, out)
		}
	case string:
		out[path] = x
	default:
		out[path] = fmt.Sprint(x)
	}
}

type flat map[string]string

func (o flat) put(path string, v frontend.Variable) {
	// the value gnark's witness builder derives from it
	var e fr.Element
	if _, err := e.SetInterface(v); err != nil {
		o[path] = "unusable: " + err.Error()
		return
	}
	o[path] = e.String()
	// and no wrap-around on the way
	if b, ok := v.(*big.Int); ok {
		o[path] = b.String()
	}
	if b, ok := v.(big.Int); ok {
		o[path] = b.String()
	}
	if o[path] == "0" {
		return
	}
	if strings.HasPrefix(o[path], "-") {
		var z big.Int
		e.BigInt(&z)
		o[path] = z.String()
	}
}
func (o flat) hs(path string, v []frontend.Variable) {
	o[path+".len"] = fmt.Sprint(len(v))
	for i, x := range v {
		o.put(fmt.Sprintf("%s.%d", path, i), x)
	}
}
func (o flat) fs(path string, v []gl.Variable) {
	o[path+".len"] = fmt.Sprint(len(v))
	for i, x := range v {
		o.put(fmt.Sprintf("%s.%d", path, i), x.Limb)
	}
}
func (o flat) es(path string, v []gl.QuadraticExtensionVariable) {
	o[path+".len"] = fmt.Sprint(len(v))
	for i, x := range v {
		o[fmt.Sprintf("%s.%d.len", path, i)] = "2"
		o.put(fmt.Sprintf("%s.%d.0", path, i), x[0].Limb)
		o.put(fmt.Sprintf("%s.%d.1", path, i), x[1].Limb)
	}
}
func flatProof(p variables.ProofWithPublicInputs) map[string]string {
	o := flat{}
	o.fs(".public_inputs", p.PublicInputs)
	q := p.Proof
	o.hs(".proof.wires_cap", q.WiresCap)
	o.hs(".proof.plonk_zs_partial_products_cap", q.PlonkZsPartialProductsCap)
	o.hs(".proof.quotient_polys_cap", q.QuotientPolysCap)
	o.es(".proof.openings.constants", q.Openings.Constants)
	o.es(".proof.openings.plonk_sigmas", q.Openings.PlonkSigmas)
	o.es(".proof.openings.wires", q.Openings.Wires)
	o.es(".proof.openings.plonk_zs", q.Openings.PlonkZs)
	o.es(".proof.openings.plonk_zs_next", q.Openings.PlonkZsNext)
	o.es(".proof.openings.partial_products", q.Openings.PartialProducts)
	o.es(".proof.openings.quotient_polys", q.Openings.QuotientPolys)
	b := ".proof.opening_proof"
	r := q.OpeningProof
	o[b+".commit_phase_merkle_caps.len"] = fmt.Sprint(len(r.CommitPhaseMerkleCaps))
	for i, x := range r.CommitPhaseMerkleCaps {
		o.hs(fmt.Sprintf("%s.commit_phase_merkle_caps.%d", b, i), x)
	}
	o[b+".query_round_proofs.len"] = fmt.Sprint(len(r.QueryRoundProofs))
	for i, x := range r.QueryRoundProofs {
		a := fmt.Sprintf("%s.query_round_proofs.%d", b, i)
		o[a+".initial_trees_proof.evals_proofs.len"] = fmt.Sprint(len(x.InitialTreesProof.EvalsProofs))
		for j, y := range x.InitialTreesProof.EvalsProofs {
			e := fmt.Sprintf("%s.initial_trees_proof.evals_proofs.%d", a, j)
			o[e+".len"] = "2"
			o.fs(e+".0", y.Elements)
			o.hs(e+".1.siblings", y.MerkleProof.Siblings)
		}
		o[a+".steps.len"] = fmt.Sprint(len(x.Steps))
		for j, y := range x.Steps {
			e := fmt.Sprintf("%s.steps.%d", a, j)
			o.es(e+".evals", y.Evals)
			o.hs(e+".merkle_proof.siblings", y.MerkleProof.Siblings)
		}
	}
	o.es(b+".final_poly.coeffs", r.FinalPoly.Coeffs)
	o.put(b+".pow_witness", r.PowWitness.Limb)
	return o
}
func flatVK(v variables.VerifierOnlyCircuitData) map[string]string {
	o := flat{}
	o.hs(".constants_sigmas_cap", v.ConstantSigmasCap)
	o.put(".circuit_digest", v.CircuitDigest)
	return o
}
func flatCommon(d types.CommonCircuitData, doc any) map[string]string {
	o := map[string]string{}
	put := func(p string, v any) { o[p] = fmt.Sprint(v) }
	lst := func(p string, v []uint64) {
		put(p+".len", len(v))
		for i, x := range v {
			put(fmt.Sprintf("%s.%d", p, i), x)
		}
	}
	fc := func(p string, v types.FriConfig) {
		put(p+".rate_bits", v.RateBits)
		put(p+".cap_height", v.CapHeight)
		put(p+".proof_of_work_bits", v.ProofOfWorkBits)
		put(p+".num_query_rounds", v.NumQueryRounds)
	}
	c := d.Config
	put(".config.num_wires", c.NumWires)
	put(".config.num_routed_wires", c.NumRoutedWires)
	put(".config.num_constants", c.NumConstants)
	put(".config.use_base_arithmetic_gate", c.UseBaseArithmeticGate)
	put(".config.security_bits", c.SecurityBits)
	put(".config.num_challenges", c.NumChallenges)
	put(".config.zero_knowledge", c.ZeroKnowledge)
	put(".config.max_quotient_degree_factor", c.MaxQuotientDegreeFactor)
	fc(".config.fri_config", c.FriConfig)
	fc(".fri_params.config", d.FriParams.Config)
	put(".fri_params.hiding", d.FriParams.Hiding)
	put(".fri_params.degree_bits", d.FriParams.DegreeBits)
	if d.DegreeBits != d.FriParams.DegreeBits {
		put(".fri_params.degree_bits", fmt.Sprint(d.DegreeBits, " and ", d.FriParams.DegreeBits))
	}
	lst(".fri_params.reduction_arity_bits", d.FriParams.ReductionArityBits)
	put(".gates.len", len(d.GateIds))
	for i, g := range d.GateIds {
		put(fmt.Sprintf(".gates.%d", i), g)
	}
	// the selector layout has no accessors: compare with the one built from the document
	j := jnode{doc}
	var idx, st, en []uint64
	for _, x := range j.k("selectors_info", "selector_indices").list() {
		idx = append(idx, x.u())
	}
	for _, x := range j.k("selectors_info", "groups").list() {
		st, en = append(st, x.k("start").u()), append(en, x.k("end").u())
	}
	same := func(a, b any) bool {
		return strings.ReplaceAll(fmt.Sprintf("%#v", a), "(nil)", "{}") == strings.ReplaceAll(fmt.Sprintf("%#v", b), "(nil)", "{}")
	}
	if w := *gates.NewSelectorsInfo(idx, st, en); !reflect.DeepEqual(w, d.SelectorsInfo) && !same(w, d.SelectorsInfo) {
		put(".selectors_info", fmt.Sprintf("%+v instead of %+v", d.SelectorsInfo, w))
	}
	put(".quotient_degree_factor", d.QuotientDegreeFactor)
	put(".num_gate_constraints", d.NumGateConstraints)
	put(".num_constants", d.NumConstants)
	put(".num_public_inputs", d.NumPublicInputs)
	lst(".k_is", d.KIs)
	put(".num_partial_products", d.NumPartialProducts)
	return o
}

// unread says which leaves of a document have no in-memory counterpart.
func unread(path string) bool {
	return strings.Contains(path, "reduction_strategy") || strings.HasPrefix(path, ".selectors_info") || strings.HasPrefix(path, ".num_lookup") || strings.HasPrefix(path, ".luts")
}

// node addresses a value inside a document.
type node struct {
	path string
	kind string // map list num hash text bool
	at   []any  // keys and indices
}

func nodes(path string, at []any, v any, out *[]node) {
	add := func(k string) { *out = append(*out, node{path, k, append([]any{}, at...)}) }
	switch x := v.(type) {
	case map[string]any:
		add("map")
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			nodes(path+"."+k, append(at, k), x[k], out)
		}
	case []any:
		add("list")
		for i, y := range x {
			nodes(fmt.Sprintf("%s.%d", path, i), append(at, i), y, out)
		}
	case json.Number:
		add("num")
	case bool:
		add("bool")
	case string:
		if strings.HasPrefix(path, ".gates") {
			add("text")
		} else {
			add("hash")
		}
	}
}

// replaceAt returns a copy of the document with one node replaced.
func replaceAt(v any, at []any, f func(old any) any) any {
	if len(at) == 0 {
		return f(v)
	}
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, y := range x {
			o[k] = y
		}
		k := at[0].(string)
		o[k] = replaceAt(x[k], at[1:], f)
		return o
	case []any:
		o := append([]any{}, x...)
		o[at[0].(int)] = replaceAt(x[at[0].(int)], at[1:], f)
		return o
	}
	panic("path")
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// distinct copies a document with every number in it replaced by one that
// depends on i.
func distinct(v any, i int) any {
	switch v := v.(type) {
	case json.Number:
		n, err := strconv.ParseUint(string(v), 10, 64)
		if err != nil {
			return v
		}
		return json.Number(fmt.Sprint((n + 7777 + uint64(i)) % (1 << 62)))
	case string:
		b, ok := new(big.Int).SetString(v, 10)
		if !ok {
			return v
		}
		return b.Add(b, big.NewInt(int64(i))).Mod(b, fr.Modulus()).String()
	case []any:
		o := make([]any, len(v))
		for k := range v {
			o[k] = distinct(v[k], i)
		}
		return o
	case map[string]any:
		o := map[string]any{}
		for k := range v {
			o[k] = distinct(v[k], i)
		}
		return o
	}
	return v
}

func init() {
	reg("C21", func(c *Ctx) {
		c.Assume("JSON null and missing keys are outside the enumerated malformations (Go maps them to empty values; shapes are then refused by the verifier, C20)")
		c.Assume("documents up to three entries per list plus one longer list at a time")
		dir, err := os.MkdirTemp("", "verifc21")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		type kind struct {
			name string
			doc  any
			load func(file string) any
			flat func(loaded any, doc any) map[string]string
		}
		kinds := []kind{
			{"proof", (&docGen{}).proof(), func(f string) any {
				return variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(f))
			}, func(l, _ any) map[string]string { return flatProof(l.(variables.ProofWithPublicInputs)) }},
			{"vk", (&docGen{}).vk(), func(f string) any {
				return variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(f))
			}, func(l, _ any) map[string]string { return flatVK(l.(variables.VerifierOnlyCircuitData)) }},
			{"common", (&docGen{}).common(), func(f string) any { return types.ReadCommonCircuitData(f) }, func(l, d any) map[string]string { return flatCommon(l.(types.CommonCircuitData), d) }},
		}
		try := func(k kind, file string, data []byte) (loaded any, refused any) {
			if err := os.WriteFile(file, data, 0o644); err != nil {
				panic(err)
			}
			defer func() { refused = recover() }()
			return k.load(file), nil
		}
		diff := func(k kind, loaded any, doc any) string {
			want, got := map[string]string{}, k.flat(loaded, doc)
			flatDoc("", doc, want)
			var ks []string
			for p := range want {
				if !unread(p) {
					ks = append(ks, p)
				}
			}
			sort.Strings(ks)
			for _, p := range ks {
				if g, ok := got[p]; !ok || g != want[p] {
					return fmt.Sprintf("%s is %q in memory and %q in the file", p, g, want[p])
				}
				delete(got, p)
			}
			for p, v := range got {
				return fmt.Sprintf("in memory but not in the file: %s %s", p, v)
			}
			return ""
		}
		type job struct {
			k    kind
			key  string
			data func() []byte
			doc  any // nil: must be refused
		}
		var jobs []job
		good := func(k kind, key string, doc any) {
			jobs = append(jobs, job{k, k.name + " " + key, func() []byte { return mustJSON(doc) }, doc})
		}
		bad := func(k kind, key string, data func() []byte) {
			jobs = append(jobs, job{k, k.name + " " + key, data, nil})
		}
		nums := []string{"0", "1", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740991", "9007199254740993", "9223372036854775807", "9223372036854775808", "9223372036854775809",
			"18446744069414584320", "18446744069414584321", "18446744069414584322", "18446744073709551614", "18446744073709551615"}
		r := fr.Modulus()
		at := func(sh uint, d int64) string {
			return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), sh), big.NewInt(d)).String()
		}
		hashes := []string{"0", "1", at(63, -1), at(63, 0), at(64, -1), at(64, 0), at(64, 1), at(128, -1), at(128, 1), at(192, 1), at(253, -1), at(253, 1), new(big.Int).Rsh(r, 1).String(), new(big.Int).Sub(r, big.NewInt(2)).String(), new(big.Int).Sub(r, big.NewInt(1)).String(), gl.MODULUS.String(), "0123", "00"}
		lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 65, 130, 260, 1025, 4100}
		if c.Thorough() {
			lens = append(lens, 6, 9, 15, 31, 32, 64, 100, 255, 256, 257, 1000)
		}
		for _, k := range kinds {
			k := k
			good(k, "base", k.doc)
			var ns []node
			nodes("", nil, k.doc, &ns)
			for _, n := range ns {
				n := n
				set := func(v any) any { return replaceAt(k.doc, n.at, func(any) any { return v }) }
				wrong := func(label string, v any) {
					if !unread(n.path) || strings.HasPrefix(n.path, ".selectors_info") {
						bad(k, n.path+" := "+label, func() []byte { return mustJSON(set(v)) })
					}
				}
				switch n.kind {
				case "num":
					for _, v := range nums {
						good(k, n.path+" = "+v, set(json.Number(v)))
					}
					for _, v := range []string{"-1", "1.5", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211455", "-9223372036854775808"} {
						wrong(v, json.Number(v))
					}
					wrong("string", "1")
					wrong("bool", true)
					wrong("list", []any{})
					wrong("list1", []any{json.Number("1")})
					wrong("object", map[string]any{})
				case "hash":
					for _, v := range hashes {
						d := set(v)
						// leading zeros are the same number
						want := set(strings.TrimLeft(v[:len(v)-1], "0") + v[len(v)-1:])
						jobs = append(jobs, job{k, k.name + " " + n.path + " = " + v, func() []byte { return mustJSON(d) }, want})
					}
					for _, v := range []string{"", " ", "abc", "0x12", "-1", "1.5", "1e3", " 1", "1 ", "1_000", "0b1", "12345678901234567890x", "\u0661", r.String(), new(big.Int).Add(r, big.NewInt(1)).String(), at(254, 0), at(256, -1), at(256, 0), at(512, 1)} {
						wrong(fmt.Sprintf("%q", v), v)
					}
					wrong("number", json.Number("5"))
					wrong("bool", false)
					wrong("list", []any{"1"})
					wrong("object", map[string]any{"elements": []any{}})
				case "text":
					for _, v := range []string{"", "x", "\u00e9\u4e2d", strings.Repeat("long ", 1000)} {
						good(k, n.path+" = "+v[:min(8, len(v))], set(v))
					}
					wrong("number", json.Number("5"))
					wrong("list", []any{})
				case "bool":
					if n.path != ".fri_params.hiding" {
						good(k, n.path+" = false", set(false))
						good(k, n.path+" = true", set(true))
					}
					wrong("number", json.Number("1"))
					wrong("string", "true")
				case "map":
					wrong("list", []any{})
					wrong("number", json.Number("1"))
					wrong("string", "x")
					wrong("bool", true)
				case "list":
					old := []any{}
					replaceAt(k.doc, n.at, func(v any) any { old = v.([]any); return v })
					// fixed-size tuples: extension elements and evaluation proofs
					tuple := len(old) == 2 && k.name == "proof" && (isNum(old[0]) && !strings.HasSuffix(n.path, "public_inputs") && !strings.HasSuffix(n.path, ".0.0") || strings.Contains(n.path, "evals_proofs.") && isList(old[0]))
					if strings.Contains(n.path, "evals_proofs.") && len(old) == 3 {
						tuple = false
					}
					for _, m := range lens {
						if len(old) == 0 {
							continue
						}
						nl := make([]any, m)
						for i := range nl {
							nl[i] = old[i%len(old)]
							if i >= len(old) {
								nl[i] = distinct(nl[i], i)
							}
						}
						if m == len(old) {
							continue
						}
						if tuple {
							bad(k, fmt.Sprintf("%s len %d", n.path, m), func() []byte { return mustJSON(set(nl)) })
						} else if !unread(n.path) || strings.HasPrefix(n.path, ".selectors_info.selector_ind") {
							good(k, fmt.Sprintf("%s len %d", n.path, m), set(nl))
						}
					}
					if len(old) > 1 {
						// every transposition of the entries
						for a := 0; a < len(old); a++ {
							for b := a + 1; b < len(old); b++ {
								if tuple && isList(old[0]) {
									bad(k, fmt.Sprintf("%s swap %d %d", n.path, a, b), func() []byte {
										nl := append([]any{}, old...)
										nl[a], nl[b] = nl[b], nl[a]
										return mustJSON(set(nl))
									})
									continue
								}
								nl := append([]any{}, old...)
								nl[a], nl[b] = nl[b], nl[a]
								good(k, fmt.Sprintf("%s swap %d %d", n.path, a, b), set(nl))
							}
						}
					}
					wrong("object", map[string]any{})
					wrong("number", json.Number("1"))
					wrong("string", "1")
					wrong("bool", false)
				}
			}
			// truncation at every byte, trailing data, not JSON
			b := mustJSON(k.doc)
			step := 1
			if !c.Thorough() {
				step = 1 + len(b)/3000
			}
			for i := 0; i < len(b); i += step {
				bad(k, fmt.Sprintf("truncated at %d", i), func() []byte { return b[:i] })
			}
			for _, t := range []string{"}", "{}", "x", "]", "null", ",", "\x00", string(b)} {
				bad(k, "trailing "+t[:1], func() []byte { return append(append([]byte{}, b...), t...) })
			}
			for _, t := range []string{"", " ", "[]", "1", "\"x\"", "true", "{", "not json", "\xff\xfe"} {
				bad(k, "content "+fmt.Sprintf("%q", t), func() []byte { return []byte(t) })
			}
			if k.name == "common" {
				// hiding is refused whatever else is set
				for _, zk := range []any{false, true} {
					for _, ba := range []any{false, true} {
						for _, np := range nums {
							d := replaceAt(k.doc, []any{"config", "zero_knowledge"}, func(any) any { return zk })
							d = replaceAt(d, []any{"config", "use_base_arithmetic_gate"}, func(any) any { return ba })
							d = replaceAt(d, []any{"num_public_inputs"}, func(any) any { return json.Number(np) })
							d = replaceAt(d, []any{"fri_params", "hiding"}, func(any) any { return true })
							bad(k, fmt.Sprintf("hiding zk=%v base=%v pis=%s", zk, ba, np), func() []byte { return mustJSON(d) })
						}
					}
				}
				for _, p := range [][]any{{"fri_params", "degree_bits"}, {"fri_params", "config", "num_query_rounds"}, {"config", "security_bits"}} {
					for _, v := range []string{"0", "1", "20"} {
						d := replaceAt(k.doc, p, func(any) any { return json.Number(v) })
						d = replaceAt(d, []any{"fri_params", "hiding"}, func(any) any { return true })
						d2 := replaceAt(d, []any{"fri_params", "reduction_arity_bits"}, func(any) any { return []any{} })
						bad(k, fmt.Sprint("hiding ", p, v), func() []byte { return mustJSON(d) })
						bad(k, fmt.Sprint("hiding no steps ", p, v), func() []byte { return mustJSON(d2) })
					}
				}
			}
		}
		// several histories: a document loaded first is unaffected by later loads
		held := make([]any, len(kinds))
		for i, k := range kinds {
			l, ref := try(k, filepath.Join(dir, "held"), mustJSON(k.doc))
			if ref != nil {
				c.Violate("base "+k.name, fmt.Sprint(ref), "a well-formed document is refused: %v", ref)
				return
			}
			held[i] = l
		}
		var nGood, nBad int64
		for _, j := range jobs {
			if j.doc != nil {
				nGood++
			} else {
				nBad++
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			f := filepath.Join(dir, fmt.Sprint("d", i))
			defer os.Remove(f)
			l, refused := try(j.k, f, j.data())
			c.State(1)
			c.Trans(int64(len(j.key)))
			c.Trace(1)
			if j.doc == nil {
				if refused == nil {
					c.Violate("refuse "+j.key, j.key, "a malformed or unsupported document is loaded: %s", j.key)
				}
				return
			}
			if refused != nil {
				c.Violate("load "+j.key, j.key, "a well-formed document is refused: %s: %v", j.key, refused)
				return
			}
			if d := diff(j.k, l, j.doc); d != "" {
				c.Violate("load "+j.key, j.key, "%s: %s", j.key, d)
			}
		})
		for i, k := range kinds {
			if d := diff(k, held[i], k.doc); d != "" {
				c.Violate("held "+k.name, d, "a loaded %s changes when other documents are loaded: %s", k.name, d)
			}
		}
		// the recorded files
		for _, name := range []string{"step", "decode_block"} {
			for i, f := range []string{"proof_with_public_inputs.json", "verifier_only_circuit_data.json", "common_circuit_data.json"} {
				p := filepath.Join("/repo/testdata", name, f)
				k := kinds[i]
				var l any
				var refused any
				func() {
					defer func() { refused = recover() }()
					l = k.load(p)
				}()
				if refused != nil {
					c.Violate("recorded "+name+f, p, "%s is refused: %v", p, refused)
					continue
				}
				if d := diff(k, l, jread(p).v); d != "" {
					c.Violate("recorded "+name+f, p, "%s: %s", p, d)
				}
				c.Trace(1)
			}
		}
		c.Set("documents_loaded", nGood)
		c.Set("documents_refused", nBad)
		c.Sample(jobs[10].key)
		c.Sample(jobs[len(jobs)/2].key)
	})
}

func isNum(v any) bool  { _, ok := v.(json.Number); return ok }
func isList(v any) bool { _, ok := v.([]any); return ok }
