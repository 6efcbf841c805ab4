package checks

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/schedsync"
)

// A recording builder that several goroutines may share. It is invisible to
// the race detector (norace, fixed arrays), so it orders nothing.
type recVar int

type recEv struct {
	kind string
	n    int
	v    [4]int
}

const recMax = 256

type recBuilder struct {
	frontend.API
	self  frontend.API
	ids   [8]int // per worker, 7: outside
	ev    [recMax]recEv
	nev   int
	quiet bool
	kv    [8][2]any
	nkv   int
	def   [16]func(frontend.API) error
	ndef  int
}

type recCompiler struct {
	frontend.Compiler
	b *recBuilder
}

type recNative struct{ *recBuilder }
type recCommit struct{ *recBuilder }
type recPlain struct{ *recBuilder }

func newRec(m eng.Mode) *recBuilder {
	b := &recBuilder{}
	switch m {
	case eng.Native:
		b.self = &recNative{b}
	case eng.Commit:
		b.self = &recCommit{b}
	default:
		b.self = &recPlain{b}
	}
	return b
}

//go:norace
func (b *recBuilder) fresh() frontend.Variable {
	w := schedsync.Cur()
	if w < 0 {
		w = 7
	}
	b.ids[w]++
	return recVar(w*1000000 + b.ids[w])
}

//go:norace
func (b *recBuilder) rec(kind string, n int, in []frontend.Variable) {
	e := recEv{kind: kind, n: n}
	for i, x := range in {
		if i < len(e.v) {
			if r, ok := x.(recVar); ok {
				e.v[i] = int(r)
			} else {
				e.v[i] = -1
			}
		}
	}
	if b.quiet {
		return
	}
	if b.nev == recMax {
		panic("c26 harness: too many events")
	}
	b.ev[b.nev] = e
	b.nev++
}

// whole verifiers switch at lock operations only
//
//go:norace
func (b *recBuilder) yield() {
	if !b.quiet {
		schedsync.Yield()
	}
}

func (b *recBuilder) Compiler() frontend.Compiler { return &recCompiler{b: b} }
func (b *recBuilder) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return b.fresh()
}
func (b *recBuilder) MulAcc(x, y, z frontend.Variable) frontend.Variable { return b.fresh() }
func (b *recBuilder) Neg(x frontend.Variable) frontend.Variable          { return b.fresh() }
func (b *recBuilder) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return b.fresh()
}
func (b *recBuilder) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return b.fresh()
}
func (b *recBuilder) IsZero(x frontend.Variable) frontend.Variable          { return b.fresh() }
func (b *recBuilder) Select(x, y, z frontend.Variable) frontend.Variable    { return b.fresh() }
func (b *recBuilder) DivUnchecked(x, y frontend.Variable) frontend.Variable { return b.fresh() }
func (b *recBuilder) Div(x, y frontend.Variable) frontend.Variable          { return b.fresh() }
func (b *recBuilder) Inverse(x frontend.Variable) frontend.Variable         { return b.fresh() }
func (b *recBuilder) Xor(x, y frontend.Variable) frontend.Variable          { return b.fresh() }
func (b *recBuilder) Or(x, y frontend.Variable) frontend.Variable           { return b.fresh() }
func (b *recBuilder) And(x, y frontend.Variable) frontend.Variable          { return b.fresh() }
func (b *recBuilder) Cmp(x, y frontend.Variable) frontend.Variable          { return b.fresh() }
func (b *recBuilder) AssertIsLessOrEqual(x, y frontend.Variable)            {}
func (b *recBuilder) Println(x ...frontend.Variable)                        {}
func (b *recBuilder) Lookup2(b0, b1, x, y, z, t frontend.Variable) frontend.Variable {
	return b.fresh()
}
func (b *recBuilder) AssertIsEqual(x, y frontend.Variable)                {}
func (b *recBuilder) AssertIsBoolean(x frontend.Variable)                 {}
func (b *recBuilder) AssertIsDifferent(x, y frontend.Variable)            {}
func (b *recBuilder) FromBinary(x ...frontend.Variable) frontend.Variable { return b.fresh() }

//go:norace
func (b *recBuilder) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	k := 254
	if len(n) == 1 {
		k = n[0]
	}
	b.rec("bits", k, []frontend.Variable{x})
	o := make([]frontend.Variable, k)
	for i := range o {
		o[i] = b.fresh()
	}
	return o
}

//go:norace
func (n *recNative) Check(x frontend.Variable, bits int) {
	n.yield()
	n.rec("check", bits, []frontend.Variable{x})
}

func (n *recCommit) Commit(x ...frontend.Variable) (frontend.Variable, error) { return n.fresh(), nil }

//go:norace
func (c *recCompiler) NewHint(f solver.Hint, nb int, in ...frontend.Variable) ([]frontend.Variable, error) {
	c.b.yield()
	c.b.rec("hint", nb, in)
	o := make([]frontend.Variable, nb)
	for i := range o {
		o[i] = c.b.fresh()
	}
	return o, nil
}

//go:norace
func (c *recCompiler) Defer(f func(frontend.API) error) {
	schedsync.Yield()
	c.b.def[c.b.ndef] = f
	c.b.ndef++
	schedsync.Yield()
}

//go:norace
func (c *recCompiler) SetKeyValue(k, v any) {
	schedsync.Yield()
	for i := 0; i < c.b.nkv; i++ {
		if c.b.kv[i][0] == k {
			c.b.kv[i][1] = v
			return
		}
	}
	c.b.kv[c.b.nkv] = [2]any{k, v}
	c.b.nkv++
}

//go:norace
func (c *recCompiler) GetKeyValue(k any) any {
	schedsync.Yield()
	for i := 0; i < c.b.nkv; i++ {
		if c.b.kv[i][0] == k {
			return c.b.kv[i][1]
		}
	}
	return nil
}
func (c *recCompiler) Field() *big.Int                                    { return ecc.BN254.ScalarField() }
func (c *recCompiler) FieldBitLen() int                                   { return 254 }
func (c *recCompiler) MarkBoolean(frontend.Variable)                      {}
func (c *recCompiler) IsBoolean(frontend.Variable) bool                   { return false }
func (c *recCompiler) ConstantValue(v frontend.Variable) (*big.Int, bool) { return nil, false }

// finish runs the deferred callbacks and returns the multiset of range checks
// and other recorded events.
func (b *recBuilder) finish() (evs []string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	for i := 0; i < b.ndef; i++ {
		name := runtime.FuncForPC(reflect.ValueOf(b.def[i]).Pointer()).Name()
		if strings.Contains(name, "rangecheck.(*commitChecker)") {
			// what gnark's checker holds at this moment is what gets checked
			for k := 0; k < b.nkv; k++ {
				v := reflect.ValueOf(b.kv[k][1])
				if v.Kind() != reflect.Ptr || !strings.Contains(v.Type().String(), "commitChecker") {
					continue
				}
				col := v.Elem().FieldByName("collected")
				for j := 0; j < col.Len(); j++ {
					e := col.Index(j)
					x := e.Field(0)
					x = reflect.NewAt(x.Type(), unsafe.Pointer(x.UnsafeAddr())).Elem()
					id := -1
					if r, ok := x.Interface().(recVar); ok {
						id = int(r)
					}
					evs = append(evs, fmt.Sprintf("check %d bits of %d", e.Field(1).Int(), id))
				}
			}
			continue
		}
		if err := b.def[i](b.self); err != nil {
			return nil, err
		}
	}
	evs = append(evs, fmt.Sprintf("deferred %d", b.ndef))
	for i := 0; i < b.nev; i++ {
		e := b.ev[i]
		evs = append(evs, fmt.Sprintf("%s %d %v", e.kind, e.n, e.v))
	}
	sort.Strings(evs)
	return
}

type conProg struct {
	name  string
	light bool
	f     func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip)
}

var conProgs = []conProg{
	{"New;New", true, func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip) {
		*chips = append(*chips, gl.New(api), gl.New(api))
	}},
	{"New;RangeCheck", false, func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip) {
		g := gl.New(api)
		g.RangeCheck(gl.NewVariable(x[0]))
		*chips = append(*chips, g)
	}},
	{"New;RangeCheckWithMaxBits16,32", true, func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip) {
		g := gl.New(api)
		g.RangeCheckWithMaxBits(gl.NewVariable(x[0]), 16)
		g.RangeCheckWithMaxBits(gl.NewVariable(x[1]), 32)
		*chips = append(*chips, g)
	}},
	{"hash chip;New", true, func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip) {
		poseidon.NewGoldilocksChip(api)
		poseidon.NewBN254Chip(api)
		*chips = append(*chips, gl.New(api))
	}},
	{"New;Reduce", false, func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip) {
		g := gl.New(api)
		g.Reduce(gl.NewVariable(x[0]))
		*chips = append(*chips, g)
	}},
	{"New;MulAdd", false, func(api frontend.API, x []frontend.Variable, chips *[]*gl.Chip) {
		g := gl.New(api)
		g.MulAdd(gl.NewVariable(x[0]), gl.NewVariable(x[1]), gl.NewVariable(x[2]))
		*chips = append(*chips, g)
	}},
}

type conScen struct {
	mode  eng.Mode
	progs []int
	same  bool
	warm  bool // the chip exists before the goroutines start
	bound int  // preemption bound, -1: none
}

func (s conScen) String() string {
	var n []string
	for _, p := range s.progs {
		n = append(n, conProgs[p].name)
	}
	b := "different builders"
	if s.same {
		b = "one builder"
	}
	if s.warm {
		b += ", existing chip"
	}
	return fmt.Sprintf("%s: %s on %s", s.mode, strings.Join(n, " || "), b)
}

// conRun executes one schedule and returns the observations per builder.
func conRun(s conScen, pad int, run func(fs []func()) schedsync.Outcome) (obs []string, out schedsync.Outcome) {
	nb := len(s.progs)
	if s.same {
		nb = 1
	}
	bs := make([]*recBuilder, nb)
	for i := range bs {
		bs[i] = newRec(s.mode)
		if s.warm {
			gl.New(bs[i].self)
		}
	}
	chips := make([][]*gl.Chip, len(s.progs))
	fs := make([]func(), len(s.progs))
	in := make([][]frontend.Variable, len(s.progs))
	for i := range s.progs {
		i := i
		for k := 0; k < 3; k++ {
			in[i] = append(in[i], recVar(9000000+i*100+k))
		}
		b := bs[i%nb]
		fs[i] = func() { conProgs[s.progs[i]].f(b.self, in[i], &chips[i]) }
	}
	out = run(fs)
	if out.Deadlock || out.Stuck || len(out.Panics) > 0 {
		return
	}
	for k, b := range bs {
		chip := gl.New(b.self)
		for i := range s.progs {
			if i%nb != k {
				continue
			}
			for _, c := range chips[i] {
				if c != chip {
					obs = append(obs, fmt.Sprintf("builder %d has more than one field chip", k))
				}
			}
		}
		if s.mode == eng.Commit && pad > 0 {
			chip.RangeCheckWithMaxBits(gl.NewVariable(recVar(8000000)), uint64(16*pad))
		}
		ev, err := b.finish()
		if err != nil {
			obs = append(obs, "finalisation fails: "+err.Error())
		}
		obs = append(obs, fmt.Sprintf("builder %d", k))
		obs = append(obs, ev...)
		// the registry keeps the builder for ever; keep that small
		switch x := b.self.(type) {
		case *recNative:
			x.recBuilder = nil
		case *recCommit:
			x.recBuilder = nil
		case *recPlain:
			x.recBuilder = nil
		}
	}
	return
}

func serial(order []int) func(en []int, prev int) int {
	return func(en []int, prev int) int {
		for _, o := range order {
			for _, e := range en {
				if e == o {
					return e
				}
			}
		}
		return en[0]
	}
}

func init() {
	reg("C26", func(c *Ctx) {
		if !schedsync.RaceBuild {
			panic("C26 needs the race-detecting build (run.sh)")
		}
		c.Assume("scheduling points: every lock operation and every builder call that registers something; code between them is checked for data races on every explored schedule, so finer interleavings add nothing")
		part, parts := shard()
		if parts == 0 {
			c.runShards(runtime.NumCPU())
		}
		raceLog := func() string {
			var b strings.Builder
			fs, _ := filepath.Glob(fmt.Sprintf("%s.%d", os.Getenv("MC_RACELOG"), os.Getpid()))
			for _, f := range fs {
				x, _ := os.ReadFile(f)
				b.Write(x)
			}
			s := b.String()
			if len(s) > 6000 {
				s = s[:6000]
			}
			return s
		}
		// the padding that makes the commitment range checker applicable
		pad := 0
		for p := 1 << 12; p < 1<<24 && pad == 0; p *= 2 {
			for _, q := range []int{p, p + p/2} {
				obs, _ := conRun(conScen{mode: eng.Commit, progs: []int{0}, same: true}, q, func(fs []func()) schedsync.Outcome {
					fs[0]()
					return schedsync.Outcome{}
				})
				if !strings.Contains(strings.Join(obs, ";"), "finalisation fails") && pad == 0 {
					pad = q
				}
			}
		}
		if pad == 0 {
			c.Count("commit_mode_not_finalised", 1)
		}
		var ss []conScen
		b2, b3 := 3, 2
		if c.Thorough() {
			b2, b3 = 5, 3
		}
		for _, m := range []eng.Mode{eng.Native, eng.Commit, eng.Plain} {
			for i := range conProgs {
				for j := range conProgs {
					if j < i {
						continue
					}
					for _, same := range []bool{true, false} {
						b := b2
						if conProgs[i].light && conProgs[j].light && m != eng.Commit {
							b++
						}
						ss = append(ss, conScen{m, []int{i, j}, same, false, b})
						if same {
							ss = append(ss, conScen{m, []int{i, j}, same, true, b})
						}
					}
				}
			}
			ss = append(ss, conScen{m, []int{0, 0}, true, false, 6}, conScen{m, []int{2, 2}, true, true, -1})
			for _, t := range [][]int{{0, 0, 0}, {0, 1, 2}, {1, 1, 1}, {2, 3, 4}, {1, 2, 5}} {
				ss = append(ss, conScen{m, t, true, false, b3}, conScen{m, t, false, false, b3}, conScen{m, t, true, true, b3})
			}
		}
		c.Set("scenarios", len(ss))
		if parts == 0 {
			// the parent only describes the exploration
			ss = nil
		}
		c.Set("preemption_bound", fmt.Sprintf("2 goroutines: %d, 3 goroutines: %d, registry creation: 6, range checks on an existing chip: unbounded", b2, b3))
		for si, s := range ss {
			if parts > 0 && si%parts != part {
				continue
			}
			if c.Enough() {
				break
			}
			// expected: what a sequential order gives
			var order []int
			for i := range s.progs {
				order = append(order, i)
			}
			want, o := conRun(s, pad, func(fs []func()) schedsync.Outcome { return schedsync.Run(fs, serial(order)) })
			if o.Stuck {
				c.Count("not_explored", 1)
				return
			}
			if o.Deadlock || len(o.Panics) > 0 {
				c.Violate(caseKey(s.String(), "serial"), o.Panics, "%s: one after the other does not work: deadlock=%v %s", s, o.Deadlock, clip(strings.Join(o.Panics, " ")))
				continue
			}
			w := strings.Join(want, "\n")
			t0, n0 := time.Now(), c.states
			if strings.Contains(w, "more than one field chip") || s.mode != eng.Commit && strings.Contains(w, "finalisation fails") {
				c.Violate(caseKey(s.String(), "serial"), want, "%s: one after the other: %s", s, clip(w))
				continue
			}
			// depth-first over all schedules
			type dec struct {
				en   []int
				prev int
				ch   int // index in en
				pre  int // preemptions before
			}
			cost := func(d dec, k int) int {
				if d.prev >= 0 && d.en[k] != d.prev {
					return 1
				}
				// with goroutines the code spawns itself, every deviation counts
				if n := len(d.en) - 1; d.prev < 0 && k > 0 && d.en[n] >= len(s.progs) {
					return 1
				}
				return 0
			}
			var path []dec
			bad := false
			for !bad {
				pos := 0
				o := schedsync.Outcome{}
				races := schedsync.RaceErrors()
				got, o := conRun(s, pad, func(fs []func()) schedsync.Outcome {
					return schedsync.Run(fs, func(en []int, prev int) int {
						if pos < len(path) {
							d := path[pos]
							pos++
							if len(d.en) != len(en) || d.prev != prev {
								panic("c26 harness: schedule does not replay")
							}
							return d.en[d.ch]
						}
						d := dec{en: append([]int{}, en...), prev: prev}
						if n := len(path); n > 0 {
							l := path[n-1]
							d.pre = l.pre + cost(l, l.ch)
						}
						// default: go on with the same goroutine
						for k, e := range en {
							if e == prev {
								d.ch = k
							}
						}
						if prev < 0 {
							d.ch = 0
						}
						path = append(path, d)
						pos++
						return en[d.ch]
					})
				})
				c.State(1)
				c.Trans(int64(o.Steps))
				c.Trace(1)
				c.Count("schedules", 1)
				var sch []int
				for _, d := range path {
					sch = append(sch, d.en[d.ch])
				}
				key := s.String()
				if n := schedsync.RaceErrors(); n > races {
					c.Violate(caseKey(key, "race"), map[string]any{"schedule": sch, "report": raceLog()}, "%s: unsynchronized access to shared state (data race) under schedule %v", s, sch)
					bad = true
				}
				if o.Stuck {
					c.Count("not_explored", 1)
					return
				}
				if o.Deadlock {
					c.Violate(caseKey(key, "deadlock"), sch, "%s: deadlock under schedule %v", s, sch)
					bad = true
				}
				if len(o.Panics) > 0 {
					c.Violate(caseKey(key, "panic"), map[string]any{"schedule": sch, "panics": o.Panics}, "%s: panic under schedule %v: %s", s, sch, clip(o.Panics[0]))
					bad = true
				}
				if !bad && strings.Join(got, "\n") != w {
					c.Violate(caseKey(key, "result"), map[string]any{"schedule": sch, "got": got, "want": want}, "%s: under schedule %v the result differs from every sequential order: %s", s, sch, diffLines(got, want))
					bad = true
				}
				// next schedule
				k := len(path) - 1
				for ; k >= 0; k-- {
					d := path[k]
					// alternatives are tried in cyclic order after the default
					def := 0
					for q, e := range d.en {
						if e == d.prev {
							def = q
						}
					}
					next := -1
					for q := (d.ch + 1) % len(d.en); q != def; q = (q + 1) % len(d.en) {
						if s.bound < 0 || d.pre+cost(d, q) <= s.bound {
							next = q
							break
						}
					}
					if next >= 0 {
						path = path[:k+1]
						path[k].ch = next
						break
					}
				}
				if k < 0 {
					break
				}
			}
			if os.Getenv("MC_VERBOSE") != "" {
				fmt.Fprintln(os.Stderr, s, s.bound, c.states-n0, time.Since(t0))
			}
		}
		if parts > 0 {
			c.concurrentVerifiers(raceLog, part, parts)
		}
	})
}

func diffLines(a, b []string) string {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	var o []string
	for x, n := range m {
		if n > 0 {
			o = append(o, "+"+x)
		}
		if n < 0 {
			o = append(o, "-"+x)
		}
	}
	sort.Strings(o)
	return clip(strings.Join(o, "; "))
}

// concurrentVerifiers builds whole verifiers in several goroutines, each with
// its own builder: every pair of accesses to shared state must be ordered.
func (c *Ctx) concurrentVerifiers(raceLog func() string, part, parts int) {
	gi := gateInstances()
	insts := []*instance{smallInstances()[1], gi[len(gi)-1]}
	if c.Thorough() {
		insts = append(insts, gi[:len(gi)-1]...)
	}
	one := func(in *instance, mode eng.Mode, ok *bool) func() {
		return func() {
			b := newRec(mode)
			b.quiet = true
			pv, vkv := proofVars(in.p), vkVars(in.vk)
			cd := commonData(in.com)
			verifier.NewVerifierChip(b.self, cd).Verify(pv.Proof, pv.PublicInputs, vkv)
			*ok = true
		}
	}
	load := func(dir string, ok *bool) func() {
		return func() {
			types.ReadCommonCircuitData(dir + "/common_circuit_data.json")
			variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(dir + "/verifier_only_circuit_data.json"))
			variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(dir + "/proof_with_public_inputs.json"))
			*ok = true
		}
	}
	check := func(name string, fs []func(), good func() bool) {
		t0 := time.Now()
		defer func() {
			if os.Getenv("MC_VERBOSE") != "" {
				fmt.Fprintln(os.Stderr, name, time.Since(t0))
			}
		}()
		last := 1
		lockstep := func(en []int, prev int) int {
			for _, e := range en {
				if e > last {
					last = e
					return e
				}
			}
			last = en[0]
			return en[0]
		}
		// in lockstep, then one after the other in both orders
		for _, ch := range []func([]int, int) int{lockstep, serial([]int{0, 1}), serial([]int{1, 0})} {
			races := schedsync.RaceErrors()
			o := schedsync.Run(fs, ch)
			c.State(1)
			c.Trace(1)
			c.Trans(int64(o.Steps))
			c.Count("verifier_pairs", 1)
			if schedsync.RaceErrors() > races {
				c.Violate(caseKey("verifiers", name), raceLog(), "%s built concurrently: unsynchronized access to shared state (data race)", name)
				return
			}
			if o.Stuck {
				c.Count("not_explored", 1)
				return
			}
			if o.Deadlock || len(o.Panics) > 0 {
				c.Violate(caseKey("verifiers", name), o.Panics, "%s built concurrently: deadlock=%v %s", name, o.Deadlock, clip(strings.Join(o.Panics, " ")))
				return
			}
			if !good() {
				c.Violate(caseKey("verifiers", name), nil, "%s built concurrently: does not complete", name)
				return
			}
		}
	}
	n := 0
	mine := func() bool { n++; return (n-1)%parts == part }
	for i, a := range insts {
		for j := i; j < len(insts) && j < i+2; j++ {
			for _, m := range []eng.Mode{eng.Native, eng.Commit, eng.Plain} {
				if !mine() {
					continue
				}
				a.init()
				insts[j].init()
				var r0, r1 bool
				check(a.name+" || "+insts[j].name, []func(){one(a, m, &r0), one(insts[j], m, &r1)}, func() bool { return r0 && r1 })
			}
		}
	}
	ds, _ := filepath.Glob("/repo/testdata/*/common_circuit_data.json")
	for i, d := range ds {
		if i > 2 && !c.Thorough() || !mine() {
			continue
		}
		d = filepath.Dir(d)
		var a, b bool
		check("loading "+filepath.Base(d), []func(){load(d, &a), load(d, &b)}, func() bool { return a && b })
	}
}
