package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/logger"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/nondet"
	"verifmc/ref"
)

// trc is a builder without values: it numbers variables in the order they are
// made and digests the sequence of calls with their operands.
type trc struct {
	frontend.API
	self  frontend.API
	mu    sync.Mutex
	h     hash.Hash
	n     int // calls
	ids   int
	kv    map[any]any
	def   []func(frontend.API) error
	marks []uint64 // digest every so many calls
}

type trcVar int
type trcNative struct{ *trc }
type trcCommit struct{ *trc }
type trcPlain struct{ *trc }
type trcCompiler struct {
	frontend.Compiler
	t *trc
}

const markEvery = 512

func newTrc(m eng.Mode) *trc {
	t := &trc{h: sha256.New(), kv: map[any]any{}}
	switch m {
	case eng.Native:
		t.self = &trcNative{t}
	case eng.Commit:
		t.self = &trcCommit{t}
	default:
		t.self = &trcPlain{t}
	}
	return t
}

func operand(b []byte, x frontend.Variable) []byte {
	if v, ok := x.(trcVar); ok {
		return binary.AppendVarint(append(b, 'v'), int64(v))
	}
	c := eng.Val(x)
	return append(append(append(b, 'c'), byte(len(c.Bytes()))), c.Bytes()...)
}

// op digests a call and makes n variables.
func (t *trc) op(name string, n int, in ...frontend.Variable) []frontend.Variable {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := append([]byte(name), byte(n))
	for _, x := range in {
		b = operand(b, x)
	}
	t.h.Write(b)
	t.n++
	if t.n%markEvery == 0 {
		t.marks = append(t.marks, binary.LittleEndian.Uint64(t.h.Sum(nil)))
	}
	o := make([]frontend.Variable, n)
	for i := range o {
		t.ids++
		o[i] = trcVar(t.ids)
	}
	return o
}

func (t *trc) one(name string, in ...frontend.Variable) frontend.Variable {
	return t.op(name, 1, in...)[0]
}

func (t *trc) Add(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return t.one("add", append([]frontend.Variable{a, b}, in...)...)
}
func (t *trc) MulAcc(a, b, c frontend.Variable) frontend.Variable { return t.one("mulacc", a, b, c) }
func (t *trc) Neg(a frontend.Variable) frontend.Variable          { return t.one("neg", a) }
func (t *trc) Sub(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return t.one("sub", append([]frontend.Variable{a, b}, in...)...)
}
func (t *trc) Mul(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return t.one("mul", append([]frontend.Variable{a, b}, in...)...)
}
func (t *trc) IsZero(x frontend.Variable) frontend.Variable          { return t.one("iszero", x) }
func (t *trc) Select(x, y, z frontend.Variable) frontend.Variable    { return t.one("select", x, y, z) }
func (t *trc) DivUnchecked(x, y frontend.Variable) frontend.Variable { return t.one("divu", x, y) }
func (t *trc) Div(x, y frontend.Variable) frontend.Variable          { return t.one("div", x, y) }
func (t *trc) Inverse(x frontend.Variable) frontend.Variable         { return t.one("inv", x) }
func (t *trc) Xor(x, y frontend.Variable) frontend.Variable          { return t.one("xor", x, y) }
func (t *trc) Or(x, y frontend.Variable) frontend.Variable           { return t.one("or", x, y) }
func (t *trc) And(x, y frontend.Variable) frontend.Variable          { return t.one("and", x, y) }
func (t *trc) Cmp(x, y frontend.Variable) frontend.Variable          { return t.one("cmp", x, y) }
func (t *trc) AssertIsLessOrEqual(x, y frontend.Variable)            { t.op("le", 0, x, y) }
func (t *trc) Println(x ...frontend.Variable)                        { t.op("println", 0, x...) }
func (t *trc) Lookup2(a, b, x, y, z, w frontend.Variable) frontend.Variable {
	return t.one("lookup2", a, b, x, y, z, w)
}
func (t *trc) AssertIsEqual(x, y frontend.Variable)                { t.op("eq", 0, x, y) }
func (t *trc) AssertIsBoolean(x frontend.Variable)                 { t.op("bool", 0, x) }
func (t *trc) AssertIsDifferent(x, y frontend.Variable)            { t.op("ne", 0, x, y) }
func (t *trc) FromBinary(x ...frontend.Variable) frontend.Variable { return t.one("frombits", x...) }
func (t *trc) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	k := 254
	if len(n) == 1 {
		k = n[0]
	}
	return t.op("bits", k, x)
}
func (t *trcNative) Check(x frontend.Variable, bits int) { t.op(fmt.Sprint("check", bits), 0, x) }
func (t *trcCommit) Commit(x ...frontend.Variable) (frontend.Variable, error) {
	return t.one("commit", x...), nil
}
func (t *trc) Compiler() frontend.Compiler { return &trcCompiler{t: t} }
func (t *trc) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if _, ok := v.(trcVar); ok {
		return nil, false
	}
	return eng.Val(v), true
}
func (c *trcCompiler) NewHint(f solver.Hint, nb int, in ...frontend.Variable) ([]frontend.Variable, error) {
	if nb <= 0 {
		return nil, errors.New("hint function must return at least one output")
	}
	return c.t.op("hint"+solver.GetHintName(f), nb, in...), nil
}
func (c *trcCompiler) Defer(f func(frontend.API) error) {
	c.t.op("defer"+runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name(), 0)
	c.t.def = append(c.t.def, f)
}
func (c *trcCompiler) SetKeyValue(k, v any)             { c.t.kv[k] = v }
func (c *trcCompiler) GetKeyValue(k any) any            { return c.t.kv[k] }
func (c *trcCompiler) Field() *big.Int                  { return ecc.BN254.ScalarField() }
func (c *trcCompiler) FieldBitLen() int                 { return 254 }
func (c *trcCompiler) MarkBoolean(x frontend.Variable)  { c.t.op("markbool", 0, x) }
func (c *trcCompiler) IsBoolean(frontend.Variable) bool { return false }
func (c *trcCompiler) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	return c.t.ConstantValue(v)
}

// trace is what building a circuit came to.
type trace struct {
	Digest string
	N      int
	Refuse string
	marks  []uint64
}

func (a trace) diff(b trace) string {
	if a.Refuse != b.Refuse {
		return fmt.Sprintf("refused: %q / %q", clip(a.Refuse), clip(b.Refuse))
	}
	k := 0
	for k < len(a.marks) && k < len(b.marks) && a.marks[k] == b.marks[k] {
		k++
	}
	return fmt.Sprintf("%d / %d operations, the first difference after operation %d", a.N, b.N, k*markEvery)
}

func (a trace) same(b trace) bool { return a.Digest == b.Digest && a.N == b.N && a.Refuse == b.Refuse }

// tunit is something whose construction is observed.
type tunit struct {
	name string
	run  func() trace
}

func symbolic(t *trc, p *variables.ProofWithPublicInputs, vk *variables.VerifierOnlyCircuitData) {
	f := func(x *frontend.Variable) { *x = t.one("input") }
	hs := func(x []frontend.Variable) {
		for i := range x {
			f(&x[i])
		}
	}
	f(&vk.CircuitDigest)
	hs(vk.ConstantSigmasCap)
	for i := range p.PublicInputs {
		f(&p.PublicInputs[i].Limb)
	}
	hs(p.Proof.WiresCap)
	hs(p.Proof.PlonkZsPartialProductsCap)
	hs(p.Proof.QuotientPolysCap)
	forEachGL(&p.Proof, f)
	o := &p.Proof.OpeningProof
	for _, c := range o.CommitPhaseMerkleCaps {
		hs(c)
	}
	for _, r := range o.QueryRoundProofs {
		for _, l := range r.InitialTreesProof.EvalsProofs {
			hs(l.MerkleProof.Siblings)
		}
		for _, s := range r.Steps {
			hs(s.MerkleProof.Siblings)
		}
	}
}

func traced(m eng.Mode, def func(t *trc) error) (r trace) {
	t := newTrc(m)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Refuse = fmt.Sprint(p)
			}
		}()
		if err := def(t); err != nil {
			r.Refuse = err.Error()
			return
		}
		for i := 0; i < len(t.def); i++ {
			if err := t.def[i](t.self); err != nil {
				r.Refuse = err.Error()
				return
			}
		}
	}()
	r.Digest, r.N, r.marks = fmt.Sprintf("%x", t.h.Sum(nil)), t.n, t.marks
	return
}

// shapes come from a JSON description, so that no proof has to be made.
func traceUnits(deep bool) (us []tunit) {
	ver := func(name string, mk func() (types.CommonCircuitData, variables.ProofWithPublicInputs, variables.VerifierOnlyCircuitData), modes ...eng.Mode) {
		for _, m := range modes {
			m := m
			us = append(us, tunit{fmt.Sprintf("verifier of %s, %s", name, m), func() trace {
				return traced(m, func(t *trc) error {
					cd, p, vk := mk()
					symbolic(t, &p, &vk)
					verifier.NewVerifierChip(t.self, cd).Verify(p.Proof, p.PublicInputs, vk)
					return nil
				})
			}})
		}
	}
	gi := gateInstances()
	insts := append(smallInstances(), gi[14])
	if deep {
		insts = append(insts, gi[:14]...)
	}
	for k, in := range insts {
		in := in
		modes := []eng.Mode{eng.Native, eng.Commit, eng.Plain}
		if !deep {
			modes = modes[k%2 : k%2+1]
		}
		ver(in.name, func() (types.CommonCircuitData, variables.ProofWithPublicInputs, variables.VerifierOnlyCircuitData) {
			in.init()
			return commonData(in.com), proofVars(in.p), vkVars(in.vk)
		}, modes...)
	}
	// with commitments, widths have to be multiples of 16
	cin := gen("commit", stdGates(), []int{2, 2}, 5, 3, 0, 2, 2, 8, 4, 5, 1)
	ver(cin.name, func() (types.CommonCircuitData, variables.ProofWithPublicInputs, variables.VerifierOnlyCircuitData) {
		cin.init()
		return commonData(cin.com), proofVars(cin.p), vkVars(cin.vk)
	}, eng.Commit)
	for _, d := range []string{"decode_block", "step"} {
		d := "/repo/testdata/" + d
		if !deep && strings.HasSuffix(d, "step") {
			continue
		}
		ver(filepath.Base(d), func() (types.CommonCircuitData, variables.ProofWithPublicInputs, variables.VerifierOnlyCircuitData) {
			return types.ReadCommonCircuitData(d + "/common_circuit_data.json"),
				variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(d + "/proof_with_public_inputs.json")),
				variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(d + "/verifier_only_circuit_data.json"))
		}, eng.Native)
	}
	for _, g := range gateSet(false) {
		if g.Wires > 140 {
			continue
		}
		g := g
		us = append(us, tunit{"gate " + g.ID, func() trace {
			return traced(eng.Native, func(t *trc) error {
				h := t.op("hash", 4)
				gate := gates.GateInstanceFromId(g.ID)
				t.op(gate.Id(), 0)
				ev := gates.NewEvaluationVars(qvars(t, g.Consts), qvars(t, g.Wires), ghash(h))
				for _, x := range gate.EvalUnfiltered(t.self, glNew(t.self), *ev) {
					t.op("out", 0, x[0].Limb, x[1].Limb)
				}
				return nil
			})
		}})
	}
	for _, id := range []string{"", "Gate", "NoopGate ", "UnknownGate { a: 1 }", "ArithmeticGate { num_ops: }", "BaseSumGate { num_limbs: 3 } + Base: 2 ConstantGate { num_consts: 2 }", "NoopGateConstantGate { num_consts: 2 }",
		"PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", "ReducingExtensionGate { num_coeffs: 3 }ReducingGate { num_coeffs: 3 }"} {
		id := id
		us = append(us, tunit{"identifier " + id, func() trace {
			return traced(eng.Native, func(t *trc) error {
				t.op(gates.GateInstanceFromId(id).Id(), 0)
				return nil
			})
		}})
	}
	return
}

// TraceChild prints the trace of every unit.
func TraceChild(arg string, out *os.File) {
	logger.Disable()
	var rev, deep bool
	var part, parts int
	fmt.Sscanf(arg, "%t/%t/%d/%d", &rev, &deep, &part, &parts)
	us := traceUnits(deep)
	if rev {
		for i, j := 0, len(us)-1; i < j; i, j = i+1, j-1 {
			us[i], us[j] = us[j], us[i]
		}
	}
	res := map[string]trace{}
	for i, x := range us {
		if rev {
			i = len(us) - 1 - i
		}
		if i%parts == part {
			res[x.name] = x.run()
		}
	}
	json.NewEncoder(out).Encode(res)
}

// CompileChild prints the digest of a compiled circuit whose template holds
// one of several proofs.
func CompileChild(arg string, out *os.File) {
	logger.Disable()
	var b, v int
	fmt.Sscanf(arg, "%d/%d", &b, &v)
	in := gen("compiled", stdGates(), []int{2, 2}, 4, 1, 0, 1, 1, 8, 8, 3, 0)
	in.init()
	p := cloneProof(in.p)
	pv, vkv := proofVars(p), vkVars(in.vk)
	toConsts(&pv, &vkv)
	for i := range pv.PublicInputs {
		pv.PublicInputs[i].Limb = eng.Val(pv.PublicInputs[i].Limb)
	}
	f := &fullC{pv, vkv, commonData(in.com)}
	if v > 0 {
		// other values; the template's values must not matter
		for i, l := range allLimbs(f) {
			switch v {
			case 1:
				*l.p = 0
			case 2:
				*l.p = uint64(i)
			case 3:
				*l.p = nil
			}
		}
	}
	err := guarded(func() error {
		ccs, err := frontend.Compile(ecc.BN254.ScalarField(), builders[b].nb, f)
		if err != nil {
			return err
		}
		var buf bytes.Buffer
		ccs.WriteTo(&buf)
		fmt.Fprintf(out, "%d constraints, %x\n", ccs.GetNbConstraints(), sha256.Sum256(buf.Bytes()))
		return nil
	})
	if err != nil {
		fmt.Fprintf(out, "error %s\n", strings.ReplaceAll(clip(err.Error()), "\n", " "))
	}
}

func init() {
	reg("C30", func(c *Ctx) {
		logger.Disable()
		c.Assume("nondeterminism considered: map iteration order, the order in which spawned goroutines run, the process and its environment, earlier circuits, the values in the template; every order that puts one alternative first, and the reverse order")
		us := traceUnits(c.Thorough())
		// 1: orders left open by the language. Order is a global, so units run one at a time;
		// several processes share the work.
		part, parts := shard()
		if parts == 0 {
			c.runShards(8)
			c.environments(us)
			return
		}
		for ui, x := range us {
			if c.Enough() {
				break
			}
			job := ui
			type visit struct {
				site string
				n    int
			}
			var visits []visit
			var mu sync.Mutex
			runWith := func(order func(k int, v visit) []int) trace {
				visits = visits[:0]
				nondet.Order = func(site string, n int) []int {
					mu.Lock()
					v := visit{site, n}
					visits = append(visits, v)
					k := len(visits) - 1
					mu.Unlock()
					if order == nil {
						return nil
					}
					return order(k, v)
				}
				defer func() { nondet.Order = nil }()
				return x.run()
			}
			base := runWith(nil)
			bv := append([]visit{}, visits...)
			if ui%parts == part {
				c.State(1)
				c.Trace(1)
				c.Trans(int64(base.N))
				c.Count("choice_points", int64(len(bv)))
			}
			large := base.N > 200000 && !c.Thorough()
			sites := map[string]int{}
			for _, v := range bv {
				if v.n > sites[v.site] {
					sites[v.site] = v.n
				}
			}
			var sn []string
			for s := range sites {
				sn = append(sn, s)
			}
			sort.Strings(sn)
			try := func(name string, order func(k int, v visit) []int) bool {
				// the orders of a unit are shared by the processes
				if job++; job%parts != part {
					return true
				}
				t := runWith(order)
				c.State(1)
				c.Trace(1)
				c.Count("orders", 1)
				if !t.same(base) {
					c.Violate(caseKey("order", x.name), map[string]any{"order": name}, "%s: with %s the construction differs: %s", x.name, name, t.diff(base))
					return false
				}
				return true
			}
			// again, with nothing changed
			if !try("nothing changed", nil) {
				continue
			}
			ok := true
			for _, s := range sn {
				for f := 0; f <= sites[s] && ok; f++ {
					if large && len(bv) > 8 && f > 3 && f < sites[s]-1 {
						continue
					}
					f := f
					name := fmt.Sprintf("alternative %d of %d first at %s", f, sites[s], s)
					if f == sites[s] {
						name = "reversed order at " + s
					}
					ok = try(name, func(_ int, v visit) []int {
						if v.site != s {
							return nil
						}
						return ordered(f, sites[s], v.n)
					})
				}
			}
			// one visit at a time
			lim := 40
			if c.Thorough() {
				lim = 200
			}
			for k := 0; k < len(bv) && k < lim && ok; k++ {
				for f := 0; f <= bv[k].n && ok; f++ {
					if large && f != bv[k].n && (f != bv[k].n-1 || len(bv) > 8) {
						continue
					}
					k, f := k, f
					ok = try(fmt.Sprintf("alternative %d of %d first at visit %d (%s)", f, bv[k].n, k, bv[k].site), func(q int, v visit) []int {
						if q != k {
							return nil
						}
						return ordered(f, bv[k].n, v.n)
					})
				}
			}
		}
		c.writeShard()
	})
}

// ordered puts alternative f first; f = total means reversed.
func ordered(f, total, n int) []int {
	p := make([]int, 0, n)
	if f >= total {
		for i := n - 1; i >= 0; i-- {
			p = append(p, i)
		}
		return p
	}
	if f < n {
		p = append(p, f)
	}
	for i := 0; i < n; i++ {
		if i != f {
			p = append(p, i)
		}
	}
	return p
}

// environments runs every unit in processes that differ in everything that must not matter.
func (c *Ctx) environments(us []tunit) {
	if c.Enough0() {
		return
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	tmp, err := os.MkdirTemp("", "c30")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	type env struct {
		name string
		rev  bool
		dir  string
		vars []string
	}
	envs := []env{
		{name: "first process"},
		{name: "second process"},
		{name: "one processor, reversed order of circuits", rev: true, vars: []string{"GOMAXPROCS=1"}},
		{name: "another directory and environment", dir: tmp, vars: []string{"HOME=" + tmp, "TMPDIR=" + tmp, "LANG=C", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Kathmandu", "USER=nobody", "PATH=", "GOGC=20", "DEBUG=1", "VERBOSE=1"}},
	}
	const parts = 2
	type res map[string]trace
	outs := make([]res, len(envs)*parts)
	run := func(e env, args ...string) (string, error) {
		cmd := exec.Command(self, append(args, "x", "x", "x", "x", "x")...)
		cmd.Env = append(os.Environ(), e.vars...)
		cmd.Dir = e.dir
		var o, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &eb
		if err := cmd.Start(); err != nil {
			return "", err
		}
		t := time.AfterFunc(500*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		if err != nil {
			return "", fmt.Errorf("%v %s", err, clip(eb.String()))
		}
		return o.String(), nil
	}
	c.ParN(4, len(outs), func(i int) {
		e := envs[i/parts]
		o, err := run(e, "trace-child", fmt.Sprintf("%t/%t/%d/%d", e.rev, c.Thorough(), i%parts, parts))
		if err == nil {
			err = json.Unmarshal([]byte(o), &outs[i])
		}
		if err != nil {
			c.Violate(caseKey("process", e.name), nil, "%s: %v", e.name, err)
		}
	})
	if c.Enough0() {
		return
	}
	for i := parts; i < len(outs); i++ {
		for n, t := range outs[i] {
			c.State(1)
			c.Trace(1)
			c.Count("process_traces", 1)
			if b := outs[i%parts][n]; !t.same(b) {
				c.Violate(caseKey("process", n), nil, "%s: construction in %s differs from that in the %s: %s", n, envs[i/parts].name, envs[0].name, t.diff(b))
			}
		}
	}
	if c.Enough0() {
		return
	}
	// compiled systems: process, environment and template values
	type cj struct{ b, v, e int }
	var cjs []cj
	for b := range builders {
		for v := 0; v < 4; v++ {
			if b == 1 && (v == 1 || v == 2) && !c.Thorough() {
				continue
			}
			cjs = append(cjs, cj{b, v, v % len(envs)})
		}
	}
	got := make([]string, len(cjs))
	c.ParN(3, len(cjs), func(i int) {
		o, err := run(envs[cjs[i].e], "compile-child", fmt.Sprintf("%d/%d", cjs[i].b, cjs[i].v))
		if err != nil {
			o = "error " + err.Error()
		}
		got[i] = strings.TrimSpace(o)
	})
	for i, j := range cjs {
		c.State(1)
		c.Trace(1)
		c.Count("compiled_systems", 1)
		k := i
		for cjs[k].v != 0 {
			k--
		}
		if strings.HasPrefix(got[i], "error") || got[i] != got[k] || got[i] == "" {
			c.Violate(caseKey("compiled", builders[j.b].name, j.v), nil, "%s: template %d in %s compiles to %s, template 0 to %s", builders[j.b].name, j.v, envs[j.e].name, got[i], got[k])
		}
	}
}

var _ = ref.P
