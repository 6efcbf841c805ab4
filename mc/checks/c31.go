package checks

import (
	"bufio"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/logger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/ref"
	"verifmc/schedsync"
)

// ---- the advice functions of the code under test

type hintFn struct {
	name   string
	f      solver.Hint
	arity  [2]int // inputs, outputs
	actual [][]*big.Int
}

// collectHints runs gadgets and a whole verification and returns every advice
// function of the code under test they use, with the inputs it got.
func (c *Ctx) collectHints() []*hintFn {
	m := map[string]*hintFn{}
	seen := map[string]bool{}
	var mu sync.Mutex
	on := func(f solver.Hint, in []*big.Int, nout int) {
		n := solver.GetHintName(f)
		if !strings.Contains(n, "gnark-plonky2-verifier") {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		k := fmt.Sprint(n[strings.LastIndex(n, ".")+1:], len(in), "->", nout)
		if m[k] == nil {
			m[k] = &hintFn{name: k, f: f, arity: [2]int{len(in), nout}}
		}
		h := m[k]
		if len(h.actual) >= 4000 {
			return
		}
		if id := k + fmt.Sprint(in); !seen[id] {
			seen[id] = true
			var cp []*big.Int
			for _, x := range in {
				cp = append(cp, new(big.Int).Set(x))
			}
			h.actual = append(h.actual, cp)
		}
	}
	run := func(def func(api frontend.API)) {
		api, core := eng.New(eng.Native, eng.Options{OnHint: on})
		defer core.Release()
		core.Run(func(frontend.API) error { def(api); return nil })
	}
	for _, g := range solveGadgets() {
		g := g
		run(func(api frontend.API) {
			var in []frontend.Variable
			for i := 0; i < g.n; i++ {
				x := uint64(3 + 2*i)
				if i >= g.n-g.bits {
					x = uint64(i % 2)
				}
				in = append(in, eng.NewVar(x))
			}
			g.f(api, in)
		})
	}
	in := smallInstances()[0]
	in.init()
	run(func(api frontend.API) {
		pv, vkv := proofVars(in.p), vkVars(in.vk)
		verifier.NewVerifierChip(api, commonData(in.com)).Verify(pv.Proof, pv.PublicInputs, vkv)
	})
	var o []*hintFn
	for _, h := range m {
		o = append(o, h)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].name < o[j].name })
	return o
}

func bigs(s ...string) []*big.Int {
	var o []*big.Int
	for _, x := range s {
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic(x)
		}
		o = append(o, b)
	}
	return o
}

// values an advice function can be called with: every native value
func hintAlphabet(n int) []*big.Int {
	r := ecc.BN254.ScalarField()
	p := gl.MODULUS
	a := func(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	all := []*big.Int{big.NewInt(0), a(p, -1), a(p, 0), big.NewInt(5), a(p, 5), a(sh(64), 0), a(r, -1), sh(32), sh(144), big.NewInt(1), a(sh(32), -1), a(sh(64), -1), a(p, 1),
		sh(63), sh(96), sh(128), new(big.Int).Mul(p, p), a(new(big.Int).Mul(p, p), -1), sh(208), new(big.Int).Rsh(r, 1), a(sh(32), 1), new(big.Int).SetUint64(0x0123456789abcdef)}
	if n > len(all) {
		n = len(all)
	}
	return all[:n]
}

type hintOut struct {
	pan  any
	err  error
	vals []*big.Int
	raw  []*big.Int
}

func (h hintOut) String() string {
	if h.pan != nil {
		return fmt.Sprint("panic: ", h.pan)
	}
	if h.err != nil {
		return "error"
	}
	return fmt.Sprint(h.vals)
}

func callRaw(h *hintFn, in []*big.Int, dirty bool) (o hintOut) {
	out := make([]*big.Int, h.arity[1])
	for i := range out {
		out[i] = new(big.Int)
	}
	o.raw = out
	defer func() {
		if p := recover(); p != nil {
			o.pan = p
		}
	}()
	o.err = h.f(new(big.Int).Set(ecc.BN254.ScalarField()), in, out)
	for _, x := range out {
		if x != nil {
			x = new(big.Int).Set(x)
		}
		o.vals = append(o.vals, x)
	}
	return
}

func clone(in []*big.Int) []*big.Int {
	// spare words, so that writing past the length is seen too
	var o []*big.Int
	for _, x := range in {
		w := make([]big.Word, len(x.Bits()), len(x.Bits())+5)
		copy(w, x.Bits())
		o = append(o, new(big.Int).SetBits(w))
	}
	return o
}

func spoil(x *big.Int) {
	w := x.Bits()
	w = w[:cap(w)]
	for i := range w {
		w[i] = 0xa5a5a5a5
	}
	x.SetInt64(77)
}

func (c *Ctx) hintPurity(h *hintFn, in []*big.Int) (res hintOut) {
	key := func(s string) string { return caseKey("hint", h.name, s) }
	bad := func(what, format string, a ...any) {
		c.Violate(key(what), map[string]any{"inputs": fmt.Sprint(in)}, "%s on %v: %s", h.name, in, fmt.Sprintf(format, a...))
	}
	x := clone(in)
	res = callRaw(h, x, false)
	c.State(1)
	c.Trans(1)
	if res.pan != nil {
		bad("panic", "panics (%v) instead of returning an error", res.pan)
		return
	}
	for i := range in {
		if x[i].Cmp(in[i]) != 0 {
			bad("modified", "input %d is modified: %v", i, x[i])
			return
		}
	}
	if res.err != nil {
		return
	}
	for i, o := range res.raw {
		if o == nil {
			bad("nil", "result %d is nil", i)
			return
		}
	}
	// results are the caller's: neither the inputs nor other results nor
	// anything the function keeps change with them
	for i := range res.raw {
		for j := range in {
			if res.raw[i] == x[j] {
				bad("alias", "result %d is the same number as input %d", i, j)
				return
			}
		}
		for j := 0; j < i; j++ {
			if res.raw[i] == res.raw[j] {
				bad("alias", "results %d and %d are the same number", j, i)
				return
			}
		}
	}
	for i := range res.raw {
		spoil(res.raw[i])
		for j := range in {
			if x[j].Cmp(in[j]) != 0 {
				bad("alias", "result %d shares memory with input %d", i, j)
				return
			}
		}
		for j := i + 1; j < len(res.raw); j++ {
			if res.raw[j].Cmp(res.vals[j]) != 0 {
				bad("alias", "results %d and %d share memory", i, j)
				return
			}
		}
	}
	for j := range x {
		spoil(x[j])
	}
	again := callRaw(h, clone(in), false)
	if again.String() != res.String() {
		bad("state", "a second call with the same inputs gives %v instead of %v", again, res)
	}
	return
}

func (c *Ctx) hintChecks(hs []*hintFn) {
	modulus, rr := gl.MODULUS.String(), gl.RANGE_CHECK_NB_BITS
	type call struct {
		h  *hintFn
		in []*big.Int
	}
	var calls []call
	for _, h := range hs {
		n := map[int]int{1: 22, 2: 12, 3: 9}[h.arity[0]]
		if c.Thorough() {
			n = map[int]int{1: 22, 2: 22, 3: 22}[h.arity[0]]
		}
		if n == 0 {
			n = 2
		}
		al := hintAlphabet(n)
		idxTuples(h.arity[0], n, func(t []int) {
			var in []*big.Int
			for _, i := range t {
				in = append(in, al[i])
			}
			calls = append(calls, call{h, in})
		})
		for _, in := range h.actual {
			calls = append(calls, call{h, in})
		}
	}
	// every call on its own
	fresh := make([]string, len(calls))
	for i, x := range calls {
		fresh[i] = c.hintPurity(x.h, x.in).String()
		if gl.MODULUS.String() != modulus || gl.RANGE_CHECK_NB_BITS != rr {
			c.Violate(caseKey("hint", x.h.name, "global"), fmt.Sprint(x.in), "%s on %v changes the field modulus", x.h.name, x.in)
			return
		}
		if c.Enough() {
			return
		}
	}
	// histories of two calls: the second result does not depend on the first call, nor the first on the second
	lim := 26
	if c.Thorough() {
		lim = 120
	}
	var al []int
	per := map[string]int{}
	for i, x := range calls {
		if per[x.h.name] < lim && (i%3 == 0 || x.h.arity[0] < 3) {
			per[x.h.name]++
			al = append(al, i)
		}
	}
	for _, i := range al {
		for _, j := range al {
			a := callRaw(calls[i].h, clone(calls[i].in), false)
			var keep []*big.Int
			if a.err == nil && a.pan == nil {
				keep = a.raw
			}
			b := callRaw(calls[j].h, clone(calls[j].in), false)
			c.State(1)
			c.Trans(2)
			if b.String() != fresh[j] {
				c.Violate(caseKey("hint", calls[j].h.name, "history"), nil, "%s on %v after %s on %v gives %s, not %s", calls[j].h.name, calls[j].in, calls[i].h.name, calls[i].in, b, fresh[j])
				return
			}
			for k, x := range keep {
				if x.Cmp(a.vals[k]) != 0 {
					c.Violate(caseKey("hint", calls[i].h.name, "retained"), nil, "result %d of %s on %v is changed by a later call of %s", k, calls[i].h.name, calls[i].in, calls[j].h.name)
					return
				}
			}
		}
	}
	c.Set("hint_functions", len(hs))
	c.Set("hint_calls", len(calls))
	// the solver calls advice functions concurrently
	for i, a := range hs {
		for _, b := range hs[i:] {
			body := func(h *hintFn) func() {
				return func() {
					k := 0
					for _, x := range calls {
						if x.h == h && k < 60 {
							k++
							callRaw(h, clone(x.in), false)
							schedsync.Yield()
						}
					}
				}
			}
			for _, ch := range []func([]int, int) int{alternate(), serial([]int{0, 1}), serial([]int{1, 0})} {
				races := schedsync.RaceErrors()
				o := schedsync.Run([]func(){body(a), body(b)}, ch)
				c.State(1)
				c.Trace(1)
				c.Trans(int64(o.Steps))
				if schedsync.RaceErrors() > races {
					c.Violate(caseKey("hint", a.name, b.name, "race"), nil, "%s and %s called concurrently: unsynchronized access to shared state (data race)", a.name, b.name)
					return
				}
				if o.Stuck {
					return
				}
				if o.Deadlock || len(o.Panics) > 0 {
					c.Violate(caseKey("hint", a.name, b.name, "concurrent"), o.Panics, "%s and %s called concurrently: deadlock=%v %s", a.name, b.name, o.Deadlock, clip(strings.Join(o.Panics, " ")))
					return
				}
			}
		}
	}
}

func alternate() func(en []int, prev int) int {
	last := 1
	return func(en []int, prev int) int {
		for k := 1; k <= 2; k++ {
			for _, e := range en {
				if e == (last+k)%2 {
					last = e
					return e
				}
			}
		}
		return en[0]
	}
}

// ---- solving compiled systems with assignments that violate the circuit

type solveGadget struct {
	name string
	bits int // the last inputs are bits
	n    int
	f    func(api frontend.API, in []frontend.Variable)
}

func solveGadgets() []solveGadget {
	v := gl.NewVariable
	var o []solveGadget
	for _, op := range gops {
		op := op
		o = append(o, solveGadget{op.name, 0, op.n, func(api frontend.API, in []frontend.Variable) {
			var a []gl.Variable
			for _, x := range in {
				a = append(a, v(x))
			}
			op.f(gl.New(api), a)
		}})
	}
	for _, op := range circExtOps() {
		op := op
		sel := 0
		if strings.HasPrefix(op.name, "Lookup") {
			sel = 5
		}
		o = append(o, solveGadget{op.name, sel, 2*op.n + sel, func(api frontend.API, in []frontend.Variable) {
			var a []gl.QuadraticExtensionVariable
			for i := 0; i < op.n; i++ {
				a = append(a, gl.QuadraticExtensionVariable{v(in[2*i]), v(in[2*i+1])})
			}
			// selectors are bits; the Plonk builder's Select takes that for granted
			for _, b := range in[2*op.n:] {
				api.AssertIsBoolean(b)
			}
			op.f(api, gl.New(api), a, in[2*op.n:])
		}})
	}
	vs := func(in []frontend.Variable) (o []gl.Variable) {
		for _, x := range in {
			o = append(o, v(x))
		}
		return
	}
	o = append(o,
		solveGadget{"ReduceWithMaxBits(64)", 0, 1, func(api frontend.API, in []frontend.Variable) { gl.New(api).ReduceWithMaxBits(v(in[0]), 64) }},
		solveGadget{"RangeCheckWithMaxBits(48)", 0, 1, func(api frontend.API, in []frontend.Variable) { gl.New(api).RangeCheckWithMaxBits(v(in[0]), 48) }},
		solveGadget{"RangeCheckQE", 0, 2, func(api frontend.API, in []frontend.Variable) {
			gl.New(api).RangeCheckQE(gl.QuadraticExtensionVariable{v(in[0]), v(in[1])})
		}},
		solveGadget{"HashNoPad", 0, 9, func(api frontend.API, in []frontend.Variable) { poseidon.NewGoldilocksChip(api).HashNoPad(vs(in)) }},
		solveGadget{"Poseidon", 0, 12, func(api frontend.API, in []frontend.Variable) {
			var st poseidon.GoldilocksState
			copy(st[:], vs(in))
			poseidon.NewGoldilocksChip(api).Poseidon(st)
		}},
		solveGadget{"BN254 HashOrNoop", 0, 5, func(api frontend.API, in []frontend.Variable) { poseidon.NewBN254Chip(api).HashOrNoop(vs(in)) }},
		solveGadget{"BN254 ToVec", 0, 1, func(api frontend.API, in []frontend.Variable) { poseidon.NewBN254Chip(api).ToVec(in[0]) }},
	)
	for _, g := range []ref.Gate{ref.GArithmetic(1), ref.GBaseSum(3, 2), ref.GExponentiation(2), ref.GRandomAccess(1, 1, 1), ref.GReducing(2), ref.GCosetInterpolation(1, 2), ref.GPoseidonMds()} {
		g := g
		o = append(o, solveGadget{g.Name + " gate", 0, 2 * (g.Wires + g.Consts), func(api frontend.API, in []frontend.Variable) {
			var q []gl.QuadraticExtensionVariable
			for i := 0; i+1 < len(in); i += 2 {
				q = append(q, gl.QuadraticExtensionVariable{v(in[i]), v(in[i+1])})
			}
			h := poseidon.GoldilocksHashOut{v(1), v(2), v(3), v(4)}
			gates.GateInstanceFromId(g.ID).EvalUnfiltered(api, gl.New(api), *gates.NewEvaluationVars(q[g.Wires:], q[:g.Wires], h))
		}})
	}
	return o
}

// SolveChild solves the assignments of one part of the work. A line is
// written before and after each, so that the parent knows what a crash was about.
func SolveChild(arg string, out *os.File) {
	logger.Disable()
	var part, parts, from int
	var deep bool
	fmt.Sscanf(arg, "%d/%d/%d/%t", &part, &parts, &from, &deep)
	n := -1
	// job runs f if it is its turn
	job := func(name string, f func() (accepted, want bool)) {
		n++
		if n < from {
			return
		}
		fmt.Fprintf(out, "B\t%d\t%s\n", n, name)
		defer func() {
			if p := recover(); p != nil {
				fmt.Fprintf(out, "P\t%d\t%s\t%s\n", n, name, strings.ReplaceAll(clip(fmt.Sprint(p)), "\n", " "))
			}
		}()
		a, w := f()
		fmt.Fprintf(out, "E\t%d\t%s\t%t\t%t\n", n, name, a, w)
	}
	solve := func(ccs constraint.ConstraintSystem, w frontend.Circuit) bool {
		wit, err := frontend.NewWitness(w, ecc.BN254.ScalarField())
		if err != nil {
			return false
		}
		return ccs.IsSolved(wit, commitOnly(ccs)...) == nil
	}
	os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	for gi, g := range solveGadgets() {
		for b := range builders {
			if (2*gi+b)%parts != part {
				continue
			}
			g := g
			ccs, err := compileF(builders[b].nb, g.n, func(api frontend.API, in []frontend.Variable) error { g.f(api, in); return nil })
			if err != nil {
				fmt.Fprintf(out, "P\t%d\t%s\t%s\n", -1, g.name, "does not compile: "+strings.ReplaceAll(clip(err.Error()), "\n", " "))
				continue
			}
			var ins [][]*big.Int
			base := func() []*big.Int {
				var in []*big.Int
				for i := 0; i < g.n; i++ {
					x := int64(3 + 2*i)
					if i >= g.n-g.bits {
						x = int64(i % 2)
					}
					in = append(in, big.NewInt(x))
				}
				return in
			}
			ins = append(ins, base())
			na := 7
			if deep {
				na = 22
			}
			for _, bad := range hintAlphabet(na) {
				for i := 0; i < g.n && (i < 6 || i >= g.n-g.bits || deep); i++ {
					in := base()
					in[i] = bad
					ins = append(ins, in)
				}
				in := base()
				for i := range in {
					in[i] = bad
				}
				ins = append(ins, in)
			}
			for _, in := range ins {
				job(fmt.Sprintf("%s with inputs %v, %s", g.name, in, builders[b].name), func() (bool, bool) {
					w := &funC{}
					for i := range in {
						w.In = append(w.In, in[i])
					}
					api, core := eng.New(eng.Plain, eng.Options{})
					defer core.Release()
					want := core.Run(func(frontend.API) error {
						var iv []frontend.Variable
						for _, x := range in {
							iv = append(iv, eng.NewVar(x))
						}
						g.f(api, iv)
						return nil
					}).BaseOK
					return solve(ccs, w), want
				})
			}
		}
	}
	os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
	// the whole verifier: one element of every kind out of range
	in := gen("compiled", stdGates(), []int{2, 2}, 4, 1, 0, 1, 1, 8, 8, 3, 0)
	if part >= len(builders) {
		return
	}
	in.init()
	asg := func(p *ref.Proof, vk *ref.VK) *fullC {
		pv, vkv := proofVars(p), vkVars(vk)
		toConsts(&pv, &vkv)
		for i := range pv.PublicInputs {
			pv.PublicInputs[i].Limb = eng.Val(pv.PublicInputs[i].Limb)
		}
		return &fullC{pv, vkv, commonData(in.com)}
	}
	ccs, err := frontend.Compile(ecc.BN254.ScalarField(), builders[part].nb, asg(in.p, in.vk))
	if err != nil {
		fmt.Fprintf(out, "P\t-1\tverifier\t%s\n", strings.ReplaceAll(clip(err.Error()), "\n", " "))
		return
	}
	kinds := map[string]bool{}
	all := asg(in.p, in.vk)
	for k, l := range allLimbs(all) {
		kind := siteKind(l.name)
		if kinds[kind] && !deep {
			continue
		}
		kinds[kind] = true
		for bi, bad := range hintAlphabet(7)[2:] {
			if bi > 1 && !deep && (k+bi)%3 != 0 {
				continue
			}
			job(fmt.Sprintf("verifier with %s = %v, %s", l.name, bad, builders[part].name), func() (bool, bool) {
				w := asg(in.p, in.vk)
				*allLimbs(w)[k].p = bad
				// an element of a digest may be anything; whatever the verdict, it must be a verdict
				r := solve(ccs, w)
				return r, false
			})
		}
	}
	job("verifier with a valid proof, "+builders[part].name, func() (bool, bool) { return solve(ccs, asg(in.p, in.vk)), true })
}

func siteKind(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

type limb struct {
	name string
	p    *frontend.Variable
}

func allLimbs(f *fullC) (o []limb) {
	gv := func(n string, vs []gl.Variable) {
		for i := range vs {
			o = append(o, limb{fmt.Sprint(n, i), &vs[i].Limb})
		}
	}
	qe := func(n string, vs []gl.QuadraticExtensionVariable) {
		for i := range vs {
			o = append(o, limb{fmt.Sprint(n, i, ".low"), &vs[i][0].Limb}, limb{fmt.Sprint(n, i, ".high"), &vs[i][1].Limb})
		}
	}
	p := &f.P.Proof
	gv("public input ", f.P.PublicInputs)
	qe("constant ", p.Openings.Constants)
	qe("sigma ", p.Openings.PlonkSigmas)
	qe("wire ", p.Openings.Wires)
	qe("z ", p.Openings.PlonkZs)
	qe("z next ", p.Openings.PlonkZsNext)
	qe("partial product ", p.Openings.PartialProducts)
	qe("quotient ", p.Openings.QuotientPolys)
	qe("final polynomial ", p.OpeningProof.FinalPoly.Coeffs)
	for i := range p.OpeningProof.QueryRoundProofs {
		r := &p.OpeningProof.QueryRoundProofs[i]
		for j := range r.InitialTreesProof.EvalsProofs {
			gv(fmt.Sprint("query ", i, " leaf of tree ", string(rune('a'+j)), " "), r.InitialTreesProof.EvalsProofs[j].Elements)
		}
		for j := range r.Steps {
			qe(fmt.Sprint("query ", i, " step ", j, " "), r.Steps[j].Evals)
		}
	}
	o = append(o, limb{"proof of work witness", &p.OpeningProof.PowWitness.Limb})
	return
}

// commitOnly supplies the commitments only; hints run as they are.
func commitOnly(ccs constraint.ConstraintSystem) []solver.Option {
	all := commitOpts(ccs)
	return all[len(solver.GetRegisteredHints()):]
}

func (c *Ctx) solveBad() {
	self := os.Getenv("MC_PLAIN")
	if self == "" {
		var err error
		if self, err = os.Executable(); err != nil {
			panic(err)
		}
	}
	const parts = 8
	c.ParN(parts, parts, func(part int) {
		from, crashes := 0, 0
		for {
			cmd := exec.Command(self, "solve-child", fmt.Sprintf("%d/%d/%d/%t", part, parts, from, c.Thorough()), "x", "x", "x", "x", "x")
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var eb strings.Builder
			cmd.Stderr = &eb
			pipe, err := cmd.StdoutPipe()
			if err != nil {
				panic(err)
			}
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			tm := time.AfterFunc(600*time.Second, func() { cmd.Process.Kill() })
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<20)
			cur, open := -1, ""
			for sc.Scan() {
				f := strings.Split(sc.Text(), "\t")
				if len(f) < 3 {
					continue
				}
				fmt.Sscan(f[1], &cur)
				switch f[0] {
				case "B":
					open = f[2]
				case "P":
					open = ""
					c.Violate(caseKey("solve", f[2]), nil, "%s: solving panics instead of reporting an error: %s", f[2], f[3])
				case "E":
					open = ""
					c.State(1)
					c.Trace(1)
					c.Count("assignments_solved", 1)
					if len(f) > 4 && f[3] != f[4] {
						c.Violate(caseKey("solve", f[2]), nil, "%s: accepted=%s, expected %s", f[2], f[3], f[4])
					}
				}
			}
			err = cmd.Wait()
			tm.Stop()
			if err == nil && open == "" {
				return
			}
			if open == "" {
				panic(fmt.Sprintf("part %d: %v %s", part, err, clip(eb.String())))
			}
			c.Violate(caseKey("crash", open), clip(eb.String()), "%s: solving crashes the process: %s", open, clip(eb.String()))
			crashes++
			from = cur + 1
			if crashes > 2 || c.Enough() {
				return
			}
		}
	})
}

func init() {
	reg("C31", func(c *Ctx) {
		logger.Disable()
		c.hintChecks(c.collectHints())
		c.solveBad()
	})
}
