package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/ref"
)

// ---- memory layouts of caller-owned data

const (
	layExact  = iota // every slice in its own array
	laySpare         // every slice with spare capacity
	layPacked        // all slices of a type one after the other in one array
	nLayouts
)

var layNames = []string{"exact", "spare capacity", "packed"}

func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func eachSlice(v reflect.Value, f func(s reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct && !isLeaf(v.Type()) {
			eachSlice(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			eachSlice(open(v.Field(i)), f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			eachSlice(v.Index(i), f)
		}
	case reflect.Slice:
		f(v)
		for i := 0; i < v.Len(); i++ {
			eachSlice(v.Index(i), f)
		}
	}
}

func isLeaf(t reflect.Type) bool {
	return strings.Contains(t.String(), "eng.") || strings.Contains(t.String(), "big.Int")
}

func poison(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		v.Set(reflect.ValueOf(eng.NewVar(uint64(0xdeadbeef))))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			poison(open(v.Field(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			poison(v.Index(i))
		}
	case reflect.Uint64, reflect.Uint8, reflect.Uint:
		v.SetUint(0xad)
	case reflect.Int:
		v.SetInt(0xad)
	case reflect.String:
		v.SetString("poison")
	}
}

// relayout moves every slice reachable from the struct obj points to and
// returns the arrays they live in.
func relayout(obj any, style int) (back []reflect.Value) {
	root := reflect.ValueOf(obj).Elem()
	arena := map[reflect.Type]reflect.Value{}
	off := map[reflect.Type]int{}
	if style == layPacked {
		n := map[reflect.Type]int{}
		var order []reflect.Type
		eachSlice(root, func(s reflect.Value) {
			if n[s.Type()] == 0 {
				order = append(order, s.Type())
			}
			n[s.Type()] += s.Len()
		})
		for _, t := range order {
			a := reflect.MakeSlice(t, n[t]+9, n[t]+9)
			for i := n[t]; i < n[t]+9; i++ {
				poison(a.Index(i))
			}
			arena[t] = a
			back = append(back, a)
		}
	}
	eachSlice(root, func(s reflect.Value) {
		if s.IsNil() {
			return
		}
		t := s.Type()
		switch style {
		case layExact, laySpare:
			extra := 0
			if style == laySpare {
				extra = 7
			}
			a := reflect.MakeSlice(t, s.Len()+extra, s.Len()+extra)
			reflect.Copy(a, s)
			for i := s.Len(); i < a.Len(); i++ {
				poison(a.Index(i))
			}
			back = append(back, a)
			s.Set(a.Slice(0, s.Len()))
		case layPacked:
			a, o := arena[t], off[t]
			if !a.IsValid() {
				return
			}
			reflect.Copy(a.Slice(o, o+s.Len()), s)
			off[t] = o + s.Len()
			s.Set(a.Slice(o, o+s.Len()))
		}
	})
	return
}

func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil ")
			return
		}
		x := open(v).Interface()
		if p, ok := x.(*eng.Var); ok {
			fmt.Fprintf(b, "%p=%s ", p, eng.Val(p))
		} else {
			fmt.Fprintf(b, "%v ", x)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dump(b, open(v.Field(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
		}
	case reflect.Slice:
		fmt.Fprintf(b, "[%x %d %d] ", v.Pointer(), v.Len(), v.Cap())
	case reflect.Ptr:
		fmt.Fprintf(b, "ptr%x ", v.Pointer())
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct && !isLeaf(v.Type()) {
			dump(b, v.Elem())
		}
	default:
		fmt.Fprintf(b, "%v ", v)
	}
}

// snapshot of an object and the arrays behind it, spare capacity included
func snapshot(obj any, back []reflect.Value) []string {
	var out []string
	add := func(v reflect.Value) {
		var b strings.Builder
		dump(&b, v)
		out = append(out, b.String())
	}
	add(reflect.ValueOf(obj).Elem())
	for _, a := range back {
		for i := 0; i < a.Len(); i++ {
			add(a.Index(i))
		}
	}
	return out
}

// ---- units: entry points of the library with chips and inputs

type unit struct {
	name  string
	heavy bool
	env   func() any         // pointer to a struct: circuit description
	in    func(var_ int) any // pointer to a struct: inputs
	mk    func(api frontend.API, env any) func(in any) []frontend.Variable
}

type verEnv struct{ CD types.CommonCircuitData }
type verIn struct {
	P  variables.ProofWithPublicInputs
	VK variables.VerifierOnlyCircuitData
	C  variables.ProofChallenges
	H  poseidon.GoldilocksHashOut
}
type gateEnv struct {
	IDs []string
	Sel gates.SelectorsInfo
	N   uint64
}
type gateIn struct {
	K, W []gl.QuadraticExtensionVariable
	H    poseidon.GoldilocksHashOut
}
type vecIn struct {
	A, B   []gl.Variable
	Q, R   []gl.QuadraticExtensionVariable
	Pairs  [][2]gl.QuadraticExtensionVariable
	Alg    []gl.QuadraticExtensionAlgebraVariable
	Dom    []goldilocks.Element
	Wt     []goldilocks.Element
	Caps   []variables.FriMerkleCap
	Digest []frontend.Variable
}

func qsOut(q []gl.QuadraticExtensionVariable) []frontend.Variable {
	var o []frontend.Variable
	for _, x := range q {
		o = append(o, x[0].Limb, x[1].Limb)
	}
	return o
}

func algOut(a gl.QuadraticExtensionAlgebraVariable) []frontend.Variable {
	return qsOut(a[:])
}

// two circuits of the same shape with valid proofs
type twin struct {
	com *ref.Common
	vk  [2]*ref.VK
	p   [2]*ref.Proof
	ch  [2]ref.Challenges
}

var twins = sync.OnceValue(func() *twin {
	com := ref.NewCommon(stdGates(), []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, []int{4})
	t := &twin{com: com}
	for i := range t.p {
		ci := ref.NewCircuit(com, uint64(40+i))
		t.vk[i] = ci.VK()
		t.p[i] = ci.Prove(ref.Hooks{Data: func(d *ref.FriData) { t.ch[i] = d.Ch }})
		if err := com.Verify(t.vk[i], t.p[i]); err != nil {
			panic("model: honest proof rejected: " + err.Error())
		}
	}
	return t
})

func verInput(k int) *verIn {
	t := twins()
	j := k
	if k == 2 {
		j = 0
	}
	p := cloneProof(t.p[j])
	if k == 2 {
		p.Open.Wires[0][0] = ref.Add(p.Open.Wires[0][0], 1)
	}
	return &verIn{P: proofVars(p), VK: vkVars(t.vk[j]), C: chVars(&t.ch[j]), H: pihVar(ref.PIHash(p.PI))}
}

func vecInput(k int) *vecIn {
	r := rng(77 + k)
	var o vecIn
	var f []ref.F
	for i := 0; i < 21; i++ {
		f = append(f, r.f())
	}
	o.A, o.B = fvs(f[:9]), fvs(f[9:21])
	var e []ref.E
	for i := 0; i < 10; i++ {
		e = append(e, r.e())
	}
	o.Q, o.R = ves(e[:4]), ves(e[4:7])
	for i := 0; i < 3; i++ {
		o.Pairs = append(o.Pairs, [2]gl.QuadraticExtensionVariable{ve(r.e()), ve(r.e())})
	}
	for i := 0; i < 4; i++ {
		o.Alg = append(o.Alg, va(ref.A{r.e(), r.e()}))
		o.Dom = append(o.Dom, goldilocks.NewElement(r.f()))
		o.Wt = append(o.Wt, goldilocks.NewElement(r.f()))
	}
	o.Caps = []variables.FriMerkleCap{capOf(twins().p[0].WiresCap), capOf(twins().p[k%2].ZsCap)}
	o.Digest = []frontend.Variable{eng.NewVar(u(r.f())), eng.NewVar(u(r.f()))}
	return &o
}

func units() []unit {
	venv := func() any { return &verEnv{CD: commonData(twins().com)} }
	vin := func(k int) any { return verInput(k) }
	var gset []ref.Gate
	for _, g := range []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GPublicInput(), ref.GBaseSum(4, 2), ref.GReducing(3), ref.GReducingExt(3), ref.GArithmetic(3), ref.GArithmeticExt(2), ref.GMulExt(2), ref.GExponentiation(4), ref.GRandomAccess(2, 1, 2), ref.GPoseidonMds(), ref.GCosetInterpolation(2, 3), ref.GPoseidon()} {
		gset = append(gset, g)
	}
	gin := func(k int) any {
		r := rng(1234 + k)
		var a, b []ref.E
		for i := 0; i < 6; i++ {
			a = append(a, r.e())
		}
		for i := 0; i < 200; i++ {
			b = append(b, r.e())
		}
		return &gateIn{K: ves(a), W: ves(b), H: pihVar([4]ref.F{r.f(), r.f(), r.f(), r.f()})}
	}
	var us []unit
	us = append(us,
		unit{"verify", true, venv, vin, func(api frontend.API, env any) func(any) []frontend.Variable {
			chip := verifier.NewVerifierChip(api, env.(*verEnv).CD)
			return func(in any) []frontend.Variable {
				x := in.(*verIn)
				chip.Verify(x.P.Proof, x.P.PublicInputs, x.VK)
				return nil
			}
		}},
		unit{"challenges", true, venv, vin, func(api frontend.API, env any) func(any) []frontend.Variable {
			chip := verifier.NewVerifierChip(api, env.(*verEnv).CD)
			return func(in any) []frontend.Variable {
				x := in.(*verIn)
				h := chip.GetPublicInputsHash(x.P.PublicInputs)
				c := chip.GetChallenges(x.P.Proof, h, x.VK)
				o := limbs(append(append(append(append([]gl.Variable{}, c.PlonkBetas...), c.PlonkGammas...), c.PlonkAlphas...), c.FriChallenges.FriQueryIndices...))
				o = append(o, limbs(h[:])...)
				o = append(o, c.FriChallenges.FriPowResponse.Limb)
				return append(o, qsOut(append([]gl.QuadraticExtensionVariable{c.PlonkZeta, c.FriChallenges.FriAlpha}, c.FriChallenges.FriBetas...))...)
			}
		}},
		unit{"FRI", true, venv, vin, func(api frontend.API, env any) func(any) []frontend.Variable {
			cd := &env.(*verEnv).CD
			chip := fri.NewChip(api, cd, &cd.FriParams)
			return func(in any) []frontend.Variable {
				x := in.(*verIn)
				inst := chip.GetInstance(x.C.PlonkZeta)
				op := chip.ToOpenings(x.P.Proof.Openings)
				chip.VerifyFriProof(inst, op, &x.C.FriChallenges,
					[]variables.FriMerkleCap{x.VK.ConstantSigmasCap, x.P.Proof.WiresCap, x.P.Proof.PlonkZsPartialProductsCap, x.P.Proof.QuotientPolysCap}, &x.P.Proof.OpeningProof)
				var o []frontend.Variable
				for _, b := range op.Batches {
					o = append(o, qsOut(b.Values)...)
				}
				for _, b := range inst.Batches {
					o = append(o, b.Point[0].Limb, b.Point[1].Limb)
				}
				return o
			}
		}},
		unit{"Plonk", false, venv, vin, func(api frontend.API, env any) func(any) []frontend.Variable {
			chip := plonk.NewPlonkChip(api, env.(*verEnv).CD)
			return func(in any) []frontend.Variable {
				x := in.(*verIn)
				chip.Verify(x.C, x.P.Proof.Openings, x.H)
				return nil
			}
		}},
		unit{"gates", false, func() any {
			e := &gateEnv{N: 200}
			var idx []uint64
			for i, g := range gset {
				e.IDs = append(e.IDs, g.ID)
				idx = append(idx, uint64(i/5))
			}
			n := uint64(len(gset))
			e.Sel = *gates.NewSelectorsInfo(idx, []uint64{0, 5, 10}, []uint64{5, 10, n})
			return e
		}, gin, func(api frontend.API, env any) func(any) []frontend.Variable {
			e := env.(*gateEnv)
			var g []gates.Gate
			for _, id := range e.IDs {
				g = append(g, gates.GateInstanceFromId(id))
			}
			chip := gates.NewEvaluateGatesChip(api, g, e.N, e.Sel)
			return func(in any) []frontend.Variable {
				x := in.(*gateIn)
				ev := gates.NewEvaluationVars(x.K, x.W, x.H)
				o := qsOut(chip.EvaluateGateConstraints(*ev))
				// the same variables again, gate by gate
				for _, y := range g {
					o = append(o, qsOut(y.EvalUnfiltered(api, gl.New(api), *ev))...)
				}
				return o
			}
		}},
		unit{"Goldilocks hash", false, func() any { return &struct{}{} }, func(k int) any { return vecInput(k) }, func(api frontend.API, _ any) func(any) []frontend.Variable {
			h := poseidon.NewGoldilocksChip(api)
			return func(in any) []frontend.Variable {
				x := in.(*vecIn)
				a := h.HashNoPad(x.A)
				o := limbs(a[:])
				o = append(o, limbs(h.HashNToMNoPad(x.B, 13))...)
				o = append(o, limbs(h.ToVec(a))...)
				var st poseidon.GoldilocksState
				copy(st[:], x.B)
				r := h.Poseidon(st)
				return append(append(o, limbs(r[:])...), limbs(st[:])...)
			}
		}},
		unit{"BN254 hash", false, func() any { return &struct{}{} }, func(k int) any { return vecInput(k) }, func(api frontend.API, _ any) func(any) []frontend.Variable {
			h := poseidon.NewBN254Chip(api)
			return func(in any) []frontend.Variable {
				x := in.(*vecIn)
				a, b, c := h.HashNoPad(x.B), h.HashOrNoop(x.A[:3]), h.HashOrNoop(x.A)
				o := []frontend.Variable{a, b, c, h.TwoToOne(a, b), h.TwoToOne(x.Digest[0], x.Digest[1])}
				o = append(o, limbs(h.ToVec(a))...)
				st := poseidon.BN254State{a, b, c, x.Digest[0]}
				r := h.Poseidon(st)
				return append(append(o, r[:]...), st[:]...)
			}
		}},
		unit{"challenger", false, func() any { return &struct{}{} }, func(k int) any { return vecInput(k) }, func(api frontend.API, _ any) func(any) []frontend.Variable {
			return func(in any) []frontend.Variable {
				x := in.(*vecIn)
				ch := challenger.NewChip(api)
				ch.ObserveElements(x.A)
				o := limbs(ch.GetNChallenges(3))
				ch.ObserveCap(x.Caps[0])
				ch.ObserveExtensionElements(x.Q)
				o = append(o, limbs(ch.GetNChallenges(11))...)
				ch.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: x.Q}, {Values: x.R}}})
				q := ch.GetExtensionChallenge()
				h := ch.GetHash()
				ch.ObserveHash(h)
				ch.ObserveBN254Hash(x.Digest[0])
				f := ch.GetFriChallenges(x.Caps, variables.PolynomialCoeffs{Coeffs: x.R}, x.B[0], types.FriConfig{NumQueryRounds: 3})
				o = append(o, limbs(h[:])...)
				o = append(o, qsOut(append([]gl.QuadraticExtensionVariable{q, f.FriAlpha}, f.FriBetas...))...)
				return append(o, limbs(append(append([]gl.Variable{}, f.FriQueryIndices...), f.FriPowResponse))...)
			}
		}},
		unit{"field", false, func() any { return &struct{}{} }, func(k int) any { return vecInput(k) }, func(api frontend.API, _ any) func(any) []frontend.Variable {
			g := gl.New(api)
			return func(in any) []frontend.Variable {
				x := in.(*vecIn)
				o := qsOut([]gl.QuadraticExtensionVariable{
					g.ReduceWithPowers(x.Q, x.R[0]), g.ReduceWithPowers(x.R, x.Q[1]),
					g.InnerProductExtension(x.A[0], x.Q[0], x.Pairs), g.ExpExtension(x.Q[2], 13),
					g.MulAddExtension(x.Q[0], x.Q[1], x.Q[2]), g.SubMulExtension(x.Q[0], x.Q[1], x.Q[2]),
				})
				inv, _ := g.InverseExtension(x.Q[3])
				d, _ := g.DivExtension(x.Q[3], x.R[1])
				o = append(o, qsOut([]gl.QuadraticExtensionVariable{inv, d})...)
				e, p := g.PartialInterpolateExtAlgebra(x.Dom, x.Alg, x.Wt, x.Alg[0], x.Alg[1], x.Alg[2])
				o = append(o, algOut(e)...)
				o = append(o, algOut(p)...)
				o = append(o, algOut(g.MulExtensionAlgebra(x.Alg[0], x.Alg[3]))...)
				iv, hv := g.Inverse(x.A[1])
				return append(o, g.MulAdd(x.A[0], x.A[1], x.A[2]).Limb, iv.Limb, hv, g.Reduce(g.MulAddNoReduce(x.A[3], x.A[4], x.A[5])).Limb)
			}
		}})
	return us
}

// result of running a circuit
type circRes struct {
	OK      bool
	Refused bool
	Outs    []string
	Counts  [3]int64
}

func (r circRes) same(o circRes, counts bool) bool {
	if r.OK != o.OK || r.Refused != o.Refused || strings.Join(r.Outs, ",") != strings.Join(o.Outs, ",") {
		return false
	}
	return !counts || r.Counts == o.Counts
}

func circ(mode eng.Mode, f func(api frontend.API) []frontend.Variable) circRes {
	api, core := eng.New(mode, eng.Options{})
	defer core.Release()
	var outs []frontend.Variable
	res := core.Run(func(frontend.API) error {
		outs = f(api)
		return nil
	})
	r := circRes{OK: res.BaseOK, Refused: res.Panic != nil || res.Err != nil, Counts: [3]int64{res.Asserts, int64(res.Hints), res.Ops}}
	for _, o := range outs {
		r.Outs = append(r.Outs, eng.Val(o).String())
	}
	return r
}

// ---- histories of circuits in one process (child)

type letter struct {
	name string
	run  func() circRes
}

// a builder that fails while a chip is created for it
type brokenBuilder struct{ frontend.API }

func (b *brokenBuilder) Compiler() frontend.Compiler { panic("builder failure") }
func (b *brokenBuilder) Commit(...frontend.Variable) (frontend.Variable, error) {
	panic("builder failure")
}

// circuits that differ from the first one in one dimension each
func siblings() []*instance {
	std := stdGates()
	s := []*instance{
		gen("base", std, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, 1),
		{name: "other cosets", mk: func() (*ref.Common, *ref.Circuit) {
			c := ref.NewCommon(std, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, []int{4})
			for i := range c.KIs {
				c.KIs[i] = ref.Pow(7, uint64(11*i))
			}
			return c, ref.NewCircuit(c, 3)
		}},
		gen("other gate order", []ref.Gate{std[0], std[2], std[1], std[3]}, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, 1),
		gen("other groups", std, []int{1, 3}, 5, 3, 3, 2, 2, 8, 5, 5, 1),
		gen("one group", std, []int{4}, 5, 3, 3, 2, 2, 8, 5, 5, 1),
		gen("other gate sizes", []ref.Gate{std[0], ref.GConstant(1), ref.GArithmetic(1), std[3]}, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, 1),
		gen("degree", std, []int{2, 2}, 6, 3, 3, 2, 2, 8, 4, 5, 1),
		gen("rate", std, []int{2, 2}, 5, 4, 3, 2, 2, 8, 4, 5, 1),
		gen("pow", std, []int{2, 2}, 5, 3, 9, 2, 2, 8, 4, 5, 1),
		gen("queries", std, []int{2, 2}, 5, 3, 3, 5, 2, 8, 4, 5, 1),
		gen("challenges", std, []int{2, 2}, 5, 3, 3, 2, 3, 8, 4, 5, 1),
		gen("routed", std, []int{2, 2}, 5, 3, 3, 2, 2, 13, 4, 5, 1),
		gen("quotient", std, []int{2, 2}, 5, 3, 3, 2, 2, 8, 7, 5, 1),
		gen("inputs", std, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 9, 1),
		gen("no folding", std, []int{2, 2}, 5, 3, 3, 2, 2, 8, 4, 5, 0),
		gen("two layers", std, []int{2, 2}, 9, 3, 3, 2, 2, 8, 4, 5, 2),
		gen("gates a", []ref.Gate{std[0], ref.GBaseSum(6, 2), ref.GRandomAccess(1, 2, 0), ref.GCosetInterpolation(2, 3), ref.GExponentiation(4), ref.GReducing(2), ref.GReducingExt(2), std[3]}, []int{2, 1, 1, 1, 1, 1, 1}, 5, 3, 3, 1, 1, 8, 8, 5, 1),
		gen("gates b", []ref.Gate{std[0], ref.GBaseSum(6, 4), ref.GRandomAccess(2, 1, 1), ref.GCosetInterpolation(3, 4), ref.GExponentiation(6), ref.GReducing(3), ref.GReducingExt(3), std[3]}, []int{2, 1, 1, 1, 1, 1, 1}, 5, 3, 3, 1, 1, 8, 8, 5, 1),
		gen("gates c", []ref.Gate{std[0], ref.GBaseSum(5, 3), ref.GRandomAccess(2, 1, 1), ref.GCosetInterpolation(2, 2), ref.GExponentiation(6), ref.GReducing(3), ref.GReducingExt(3), std[3]}, []int{2, 1, 1, 1, 1, 1, 1}, 5, 3, 3, 1, 1, 8, 8, 5, 1),
	}
	return s
}

func letters() []letter {
	us := units()
	single := func(n string, mode eng.Mode, k int) func() circRes {
		for i := range us {
			if us[i].name == n {
				un := us[i]
				return func() circRes {
					return circ(mode, func(api frontend.API) []frontend.Variable { return un.mk(api, un.env())(un.in(k)) })
				}
			}
		}
		panic(n)
	}
	ls := []letter{
		{"verify a valid proof", single("verify", eng.Native, 0)},
		{"verify an invalid proof", single("verify", eng.Native, 2)},
		{"malformed proof", func() circRes {
			return circ(eng.Native, func(api frontend.API) []frontend.Variable {
				x := verInput(0)
				x.P.Proof.OpeningProof.QueryRoundProofs = x.P.Proof.OpeningProof.QueryRoundProofs[:1]
				verifier.NewVerifierChip(api, commonData(twins().com)).Verify(x.P.Proof, x.P.PublicInputs, x.VK)
				return nil
			})
		}},
		{"gates", single("gates", eng.Native, 0)},
		{"hashes with bit decomposition", single("Goldilocks hash", eng.Plain, 0)},
		{"BN254 hash", single("BN254 hash", eng.Native, 1)},
		{"small circuit with commitments", single("field", eng.Commit, 0)},
		{"bit decomposition requested", func() circRes {
			os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
			defer os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
			return single("field", eng.Commit, 1)()
		}},
		{"failing builder", func() (r circRes) {
			defer func() {
				if recover() != nil {
					r.Refused = true
				}
			}()
			gl.New(&brokenBuilder{})
			return
		}},
		{"load", func() circRes {
			d := "/repo/testdata/decode_block"
			cd := types.ReadCommonCircuitData(d + "/common_circuit_data.json")
			p := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(d + "/proof_with_public_inputs.json"))
			vk := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(d + "/verifier_only_circuit_data.json"))
			return circRes{OK: true, Outs: []string{fmt.Sprint(cd.GateIds, cd.KIs, cd.FriParams, len(p.PublicInputs), p.Proof.Openings.Wires[0], vk.CircuitDigest)}}
		}},
		{"gate descriptions", func() (r circRes) {
			for _, g := range gateSet(false) {
				r.Outs = append(r.Outs, gates.GateInstanceFromId(g.ID).Id())
			}
			return
		}},
	}
	nMixed = len(ls)
	for _, in := range siblings() {
		in := in
		ls = append(ls, letter{"verify circuit: " + in.name, func() circRes {
			in.init()
			return circ(eng.Native, func(api frontend.API) []frontend.Variable {
				pv, vk := proofVars(in.p), vkVars(in.vk)
				verifier.NewVerifierChip(api, commonData(in.com)).Verify(pv.Proof, pv.PublicInputs, vk)
				return nil
			})
		}})
	}
	return ls
}

var nMixed int // letters before the siblings

// HistoryChild runs a history given as letter indices and prints the results.
func HistoryChild(arg string, out *os.File) {
	ls := letters()
	var word []int
	json.Unmarshal([]byte(arg), &word)
	var rs []circRes
	for _, w := range word {
		rs = append(rs, ls[w].run())
	}
	json.NewEncoder(out).Encode(rs)
}

func init() {
	reg("C25", func(c *Ctx) {
		us := units()
		maxLen := 2
		if c.Thorough() {
			maxLen = 3
		}
		// fresh results
		fresh := map[string]circRes{}
		var fmu sync.Mutex
		key := func(u int, k int) string { return fmt.Sprint(us[u].name, k) }
		nvar := func(u int) int {
			if us[u].name == "verify" {
				return 3
			}
			return 2
		}
		type uk struct{ u, k int }
		var all []uk
		for i := range us {
			for k := 0; k < nvar(i); k++ {
				all = append(all, uk{i, k})
			}
		}
		c.Par(len(all), func(i int) {
			x := all[i]
			r := circ(eng.Native, func(api frontend.API) []frontend.Variable { return us[x.u].mk(api, us[x.u].env())(us[x.u].in(x.k)) })
			c.State(1)
			fmu.Lock()
			fresh[key(x.u, x.k)] = r
			fmu.Unlock()
			if us[x.u].name == "verify" && r.OK != (x.k < 2) || r.Refused || us[x.u].name != "verify" && !r.OK {
				c.Violate(caseKey("fresh", us[x.u].name, x.k), nil, "%s on input %d: accepted=%v refused=%v", us[x.u].name, x.k, r.OK, r.Refused)
			}
		})
		if c.Enough0() {
			return
		}
		// 1: memory layouts; nothing of the caller's is modified
		type lj struct{ u, k, env, in int }
		var ljs []lj
		for _, x := range all {
			for e := 0; e < nLayouts; e++ {
				for i := 0; i < nLayouts; i++ {
					if us[x.u].heavy && x.k > 0 && (e != i) {
						continue
					}
					ljs = append(ljs, lj{x.u, x.k, e, i})
				}
			}
		}
		c.Par(len(ljs), func(i int) {
			j := ljs[i]
			un := us[j.u]
			env, in := un.env(), un.in(j.k)
			eb, ib := relayout(env, j.env), relayout(in, j.in)
			es, is := snapshot(env, eb), snapshot(in, ib)
			r := circ(eng.Native, func(api frontend.API) []frontend.Variable { return un.mk(api, env)(in) })
			c.State(1)
			c.Trace(1)
			c.Count("layouts", 1)
			name := fmt.Sprintf("%s, input %d, description %s, data %s", un.name, j.k, layNames[j.env], layNames[j.in])
			if f := fresh[key(j.u, j.k)]; !r.same(f, true) {
				c.Violate(caseKey("layout", name), nil, "%s: the result depends on the memory layout of the caller's slices (accepted %v/%v, refused %v/%v)", name, r.OK, f.OK, r.Refused, f.Refused)
			}
			cmp := func(what string, a, b []string) {
				for x := range a {
					if a[x] != b[x] {
						c.Violate(caseKey("modified", what, name), map[string]any{"before": a[x], "after": b[x]}, "%s: the caller's %s is modified: %s -> %s", name, what, clip(a[x]), clip(b[x]))
						return
					}
				}
			}
			cmp("circuit description", es, snapshot(env, eb))
			cmp("data", is, snapshot(in, ib))
		})
		// 2: several uses in one circuit, with shared, alternating or new chips
		type hist struct {
			seq   []uk
			share int
			nest  int // run another unit on another builder in between, -1: no
		}
		var hs []hist
		for i, un := range us {
			l := 3
			if un.heavy && !c.Thorough() {
				l = 2
			}
			var rec func(seq []uk)
			rec = func(seq []uk) {
				if len(seq) > 1 {
					for s := 0; s < 3; s++ {
						hs = append(hs, hist{append([]uk{}, seq...), s, -1})
					}
				}
				if len(seq) == l {
					return
				}
				for k := 0; k < nvar(i); k++ {
					rec(append(seq, uk{i, k}))
				}
			}
			rec(nil)
			for j := range us {
				if j != i {
					hs = append(hs, hist{[]uk{{i, 0}, {j, 0}}, 0, -1}, hist{[]uk{{i, 1}, {j, 0}, {i, 0}}, 0, -1})
				}
				if !un.heavy || j == i || c.Thorough() {
					hs = append(hs, hist{[]uk{{i, 0}, {i, 1}}, 0, j})
				}
			}
		}
		names := func(h hist) string {
			var o []string
			for _, x := range h.seq {
				o = append(o, fmt.Sprintf("%s(%d)", us[x.u].name, x.k))
			}
			s := strings.Join(o, "; ") + []string{" on shared chips", " on new chips", " on alternating chips"}[h.share]
			if h.nest >= 0 {
				s += ", with " + us[h.nest].name + " on another builder in between"
			}
			return s
		}
		c.Par(len(hs), func(i int) {
			h := hs[i]
			type chips struct{ a, b func(any) []frontend.Variable }
			want := circRes{OK: true}
			for _, x := range h.seq {
				f := fresh[key(x.u, x.k)]
				want.OK = want.OK && f.OK
				want.Outs = append(want.Outs, f.Outs...)
			}
			var nested circRes
			r := circ(eng.Native, func(api frontend.API) []frontend.Variable {
				cs := map[int]*chips{}
				mk := func(u int) func(any) []frontend.Variable { return us[u].mk(api, us[u].env()) }
				// shared chips exist before the first use
				if h.share != 1 {
					for _, x := range h.seq {
						if cs[x.u] == nil {
							cs[x.u] = &chips{a: mk(x.u)}
							if h.share == 2 {
								cs[x.u].b = mk(x.u)
							}
						}
					}
				}
				var outs []frontend.Variable
				for n, x := range h.seq {
					var f func(any) []frontend.Variable
					switch {
					case h.share == 1:
						f = mk(x.u)
					case h.share == 2 && n%2 == 1:
						f = cs[x.u].b
					default:
						f = cs[x.u].a
					}
					outs = append(outs, f(us[x.u].in(x.k))...)
					if n == 0 && h.nest >= 0 {
						nested = circ(eng.Native, func(a2 frontend.API) []frontend.Variable {
							return us[h.nest].mk(a2, us[h.nest].env())(us[h.nest].in(0))
						})
					}
				}
				return outs
			})
			c.State(1)
			c.Trace(1)
			c.Trans(int64(len(h.seq)))
			c.Count("histories_in_a_circuit", 1)
			if !r.same(want, false) {
				c.Violate(caseKey("history", names(h)), map[string]any{"got": r, "want": want}, "%s: results differ from separate circuits (accepted %v, expected %v, refused %v)", names(h), r.OK, want.OK, r.Refused)
			}
			if h.nest >= 0 && !nested.same(fresh[key(h.nest, 0)], true) {
				c.Violate(caseKey("nested", names(h)), nil, "%s: the circuit on the other builder is influenced", names(h))
			}
		})
		if c.Enough0() {
			return
		}
		// chips for different circuits on one builder, and one of the proofs invalid
		sib := siblings()
		c.Par(len(sib), func(i int) { sib[i].init() })
		type mixed struct{ a, b, order, bad int }
		var ms []mixed
		for i := range sib {
			for j := range sib {
				near := i == 0 || j == 0 || i > len(sib)-4 && j > len(sib)-4
				if i == j || !c.Thorough() && !near {
					continue
				}
				for o := 0; o < 2; o++ {
					for bad := 0; bad < 3; bad++ {
						if c.Thorough() || (i+j+o)%3 == bad {
							ms = append(ms, mixed{i, j, o, bad})
						}
					}
				}
			}
		}
		c.Par(len(ms), func(i int) {
			m := ms[i]
			if c.Enough() {
				return
			}
			r := circ(eng.Native, func(api frontend.API) []frontend.Variable {
				run := func(n int, k int, chip *verifier.VerifierChip) {
					p := sib[n].p
					if m.bad == k {
						p = cloneProof(p)
						p.Open.Sigmas[len(p.Open.Sigmas)-1][1] = ref.Add(p.Open.Sigmas[len(p.Open.Sigmas)-1][1], 1)
					}
					if chip == nil {
						chip = verifier.NewVerifierChip(api, commonData(sib[n].com))
					}
					pv, vk := proofVars(p), vkVars(sib[n].vk)
					chip.Verify(pv.Proof, pv.PublicInputs, vk)
				}
				if m.order == 0 { // both chips first, used in the other order
					ca := verifier.NewVerifierChip(api, commonData(sib[m.a].com))
					cb := verifier.NewVerifierChip(api, commonData(sib[m.b].com))
					run(m.b, 2, cb)
					run(m.a, 1, ca)
				} else {
					run(m.a, 1, nil)
					run(m.b, 2, nil)
				}
				return nil
			})
			c.State(1)
			c.Trace(1)
			c.Count("circuits_on_one_builder", 1)
			name := fmt.Sprintf("%s and %s on one builder, order %d, invalid proof %d", sib[m.a].name, sib[m.b].name, m.order, m.bad)
			if r.OK != (m.bad == 0) || r.Refused {
				c.Violate(caseKey("one builder", name), nil, "%s: accepted=%v refused=%v", name, r.OK, r.Refused)
			}
		})
		if c.Enough0() {
			return
		}
		// 3: histories of circuits in one process
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		ls := letters()
		var words [][]int
		var rec func(w []int)
		rec = func(w []int) {
			if len(w) > 0 {
				words = append(words, append([]int{}, w...))
			}
			if len(w) < maxLen {
				for i := range ls[:nMixed] {
					rec(append(w, i))
				}
			}
		}
		rec(nil)
		// verifications of different circuits: those which differ in one dimension, after one another
		for i := nMixed; i < len(ls); i++ {
			if i > nMixed {
				words = append(words, []int{nMixed, i, nMixed}, []int{i, nMixed, i})
			}
			for j := nMixed; j < len(ls); j++ {
				if i != j && (c.Thorough() || ls[i].name[:len(ls[i].name)-1] == ls[j].name[:len(ls[j].name)-1]) {
					words = append(words, []int{i, j, i})
				}
			}
		}
		// longer histories with every circuit once, in two orders
		var up, down []int
		for i := range ls {
			up, down = append(up, i), append(down, len(ls)-1-i)
		}
		words = append(words, append(up, down...), append(down, up...))
		var hung atomic.Bool // one is enough
		run := func(w []int) (rs []circRes, err error) {
			b, _ := json.Marshal(w)
			cmd := exec.Command(self, "history-child", string(b), "x", "x", "x", "x", "x")
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var ob, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &ob, &eb
			if err := cmd.Start(); err != nil {
				return nil, err
			}
			late := false
			t := time.AfterFunc(100*time.Second, func() { late = true; cmd.Process.Kill() })
			e := cmd.Wait()
			t.Stop()
			if late {
				hung.Store(true)
				return nil, fmt.Errorf("does not terminate")
			}
			if e != nil {
				return nil, fmt.Errorf("%v %s", e, clip(eb.String()))
			}
			return rs, json.Unmarshal(ob.Bytes(), &rs)
		}
		base := make([]circRes, len(ls))
		wname := func(w []int) string {
			var o []string
			for _, x := range w {
				o = append(o, ls[x].name)
			}
			return strings.Join(o, "; ")
		}
		c.Par(len(ls), func(i int) {
			rs, err := run([]int{i})
			if err != nil {
				c.Violate(caseKey("process", ls[i].name), nil, "%s: %v", ls[i].name, err)
				return
			}
			base[i] = rs[0]
		})
		if c.Enough0() {
			return
		}
		c.Par(len(words), func(i int) {
			w := words[i]
			if len(w) == 1 || c.Enough() || hung.Load() {
				return
			}
			rs, err := run(w)
			c.State(1)
			c.Trace(1)
			c.Trans(int64(len(w)))
			c.Count("process_histories", 1)
			if err != nil {
				c.Violate(caseKey("process", wname(w)), w, "history %q: %v", wname(w), err)
				return
			}
			for k := range w {
				if !rs[k].same(base[w[k]], true) {
					c.Violate(caseKey("process", wname(w)), map[string]any{"history": wname(w), "step": k, "got": rs[k], "fresh process": base[w[k]]}, "after the history %q, %q gives another result than in a fresh process (accepted %v/%v)", wname(w[:k]), ls[w[k]].name, rs[k].OK, base[w[k]].OK)
					return
				}
			}
		})
	})
}
