// Package eng is an execution engine for gnark circuits that explores trees of
// executions.  It implements frontend.API / frontend.Compiler over concrete
// BN254 scalars.  The prover (the values of every hint) is a nondeterministic
// environment: at a hint point an execution may fork into "lanes", one per
// adversarial answer.  All lanes share the work of their common prefix: a
// variable stores the value of the honest execution (the base) and, sparsely,
// the values of the lanes that differ from their parent.  A lane dies at the
// first assertion its values violate.
package eng

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"
	"sort"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	gbits "github.com/consensys/gnark/std/math/bits"
)

type alt struct {
	lane int32
	v    fr.Element
}

// Var is the engine's variable.
type Var struct {
	V fr.Element
	A []alt
}

type lane struct {
	parent  int32 // -1: base
	alive   bool
	devs    uint8
	born    int32 // hint index at which it forked
	desc    int32 // alive descendants
	opt     int32
	lastDev int32
}

// Mode selects which optional interfaces the API exposes.
type Mode int

const (
	Native Mode = iota // frontend.Rangechecker
	Commit             // frontend.Committer
	Plain              // neither: bit decomposition
)

func (m Mode) String() string { return [...]string{"native", "commit", "plain"}[m] }

// Deviation describes one fork for replay.
type Deviation struct {
	HintIdx int
	Option  int
	Inputs  []string
	Honest  []string
	Outputs []string
}

type devRec struct {
	idx, opt        int
	in, honest, out []*big.Int
}

// HintSite is handed to the menu.
type HintSite struct {
	Idx    int
	NbOut  int
	In     []*big.Int
	Honest []*big.Int // nil if the honest hint failed
}

// Options of an exploration.
type Options struct {
	Menu    func(s *HintSite) [][]*big.Int // nil: no exploration
	MaxDevs int                            // maximal number of deviations in one execution
	Window  int                            // later deviations only within Window hints of the previous one (0: unlimited)
	// Only explore hints with index in [From,To) as first deviation (To=0: all)
	From, To  int
	KeepTrace bool
	// OnAPI, when set, is invoked at each API call that may be a scheduling point.
	OnAPI func(op string)
	// OnHint, when set, is told every hint call.
	OnHint func(f solver.Hint, in []*big.Int, nbOut int)
}

type Core struct {
	opt   Options
	outer frontend.API
	mode  Mode

	lanes     []lane
	baseAlive bool
	baseFail  string
	aliveList []int32
	nAlive    int

	hints    int
	Forks    int64 // transitions: adversarial answers explored
	Asserts  int64
	Ops      int64
	Killed   int64
	RangeChk int64

	devLog   map[int32]*devRec
	kv       map[any]any
	deferred []func(frontend.API) error
	boolean  map[*Var]struct{}
	lastAsrt string
}

var modulus = fr.Modulus()

type apiNative struct{ *Core }
type apiCommit struct{ *Core }
type apiPlain struct{ *Core }

// New returns an API in the given mode and its core.
func New(mode Mode, opt Options) (frontend.API, *Core) {
	c := &Core{opt: opt, mode: mode, baseAlive: true, kv: map[any]any{}, devLog: map[int32]*devRec{}}
	switch mode {
	case Native:
		c.outer = &apiNative{c}
	case Commit:
		c.outer = &apiCommit{c}
	default:
		c.outer = &apiPlain{c}
	}
	return c.outer, c
}

// Release drops everything the engine holds (the code under test may keep the
// API alive in process-wide registries).
func (e *Core) Release() {
	e.lanes, e.aliveList, e.devLog, e.kv, e.deferred, e.boolean = nil, nil, nil, nil, nil, nil
}

// ---- conversions ----

type toBig interface {
	ToBigIntRegular(res *big.Int) *big.Int
}

// ErrBadValue is the panic value for unusable constants.
func toFr(x interface{}) fr.Element {
	var r fr.Element
	switch v := x.(type) {
	case int:
		r.SetInt64(int64(v))
	case uint64:
		r.SetUint64(v)
	case *big.Int:
		if v == nil {
			panic("nil *big.Int used as circuit value")
		}
		r.SetBigInt(v)
	case big.Int:
		r.SetBigInt(&v)
	case uint8:
		r.SetUint64(uint64(v))
	case uint16:
		r.SetUint64(uint64(v))
	case uint32:
		r.SetUint64(uint64(v))
	case uint:
		r.SetUint64(uint64(v))
	case int8:
		r.SetInt64(int64(v))
	case int16:
		r.SetInt64(int64(v))
	case int32:
		r.SetInt64(int64(v))
	case int64:
		r.SetInt64(v)
	case string:
		b, ok := new(big.Int).SetString(v, 0)
		if !ok {
			panic("bad constant string " + v)
		}
		r.SetBigInt(b)
	case []byte:
		r.SetBigInt(new(big.Int).SetBytes(v))
	case fr.Element:
		r = v
	case *fr.Element:
		r = *v
	case toBig:
		var b big.Int
		v.ToBigIntRegular(&b)
		r.SetBigInt(&b)
	default:
		panic(fmt.Sprintf("%T is not a usable circuit value", x))
	}
	return r
}

// In converts any frontend.Variable to *Var.
func (e *Core) In(x frontend.Variable) *Var {
	if v, ok := x.(*Var); ok {
		return v
	}
	return &Var{V: toFr(x)}
}

// NewVar makes an input variable with the given value.
func NewVar(x interface{}) *Var { return &Var{V: toFr(x)} }

func frBig(x *fr.Element) *big.Int {
	var b big.Int
	x.BigInt(&b)
	return &b
}

// Val returns the base value.
func Val(x frontend.Variable) *big.Int {
	if v, ok := x.(*Var); ok {
		return frBig(&v.V)
	}
	f := toFr(x)
	return frBig(&f)
}

// ---- lanes ----

func (e *Core) needed(l int32) bool {
	ln := &e.lanes[l]
	return ln.alive || ln.desc > 0
}

func (e *Core) get(v *Var, l int32) *fr.Element {
	for l >= 0 {
		n := len(v.A)
		if n == 0 {
			return &v.V
		}
		if i := find(v.A, l); i >= 0 {
			return &v.A[i].v
		}
		l = e.lanes[l].parent
	}
	return &v.V
}

func find(a []alt, l int32) int {
	lo, hi := 0, len(a)
	for lo < hi {
		m := int(uint(lo+hi) >> 1)
		if a[m].lane < l {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(a) && a[lo].lane == l {
		return lo
	}
	return -1
}

func (e *Core) getRes(res []alt, base *fr.Element, l int32) *fr.Element {
	for l >= 0 && len(res) > 0 {
		if i := find(res, l); i >= 0 {
			return &res[i].v
		}
		l = e.lanes[l].parent
	}
	return base
}

// union of lanes in which some of vs differ from base, still needed
func (e *Core) union(vs ...*Var) []int32 {
	var u []int32
	for _, v := range vs {
		for i := range v.A {
			l := v.A[i].lane
			if e.needed(l) {
				u = append(u, l)
			}
		}
	}
	if len(u) > 1 {
		sort.Slice(u, func(i, j int) bool { return u[i] < u[j] })
		k := 1
		for i := 1; i < len(u); i++ {
			if u[i] != u[i-1] {
				u[k] = u[i]
				k++
			}
		}
		u = u[:k]
	}
	return u
}

func (e *Core) kill(l int32) {
	ln := &e.lanes[l]
	if !ln.alive {
		return
	}
	ln.alive = false
	e.nAlive--
	e.Killed++
	for p := ln.parent; p >= 0; p = e.lanes[p].parent {
		e.lanes[p].desc--
	}
}

func (e *Core) killBase(why string) {
	if e.baseAlive {
		e.baseAlive = false
		e.baseFail = why
	}
}

func (e *Core) newLane(parent int32, devs uint8, opt int) int32 {
	id := int32(len(e.lanes))
	e.lanes = append(e.lanes, lane{parent: parent, alive: true, devs: devs, born: int32(e.hints), opt: int32(opt), lastDev: int32(e.hints)})
	e.aliveList = append(e.aliveList, id)
	e.nAlive++
	for p := parent; p >= 0; p = e.lanes[p].parent {
		e.lanes[p].desc++
	}
	return id
}

func (e *Core) compactAlive() {
	k := 0
	for _, l := range e.aliveList {
		if e.lanes[l].alive {
			e.aliveList[k] = l
			k++
		}
	}
	e.aliveList = e.aliveList[:k]
}

// check evaluates an assertion in every lane.
func (e *Core) check(why string, ok func(vals []*fr.Element) bool, vs ...*Var) {
	e.Asserts++
	vals := make([]*fr.Element, len(vs))
	any := false
	for i, v := range vs {
		vals[i] = &v.V
		if len(v.A) > 0 {
			any = true
		}
	}
	baseOk := ok(vals)
	if !any {
		if !baseOk {
			e.killBase(why)
			for _, l := range e.aliveList {
				if e.lanes[l].alive {
					e.kill(l)
				}
			}
			e.aliveList = e.aliveList[:0]
		}
		return
	}
	u := e.union(vs...)
	status := map[int32]bool{}
	failedWithDesc := !baseOk
	for _, l := range u {
		for i, v := range vs {
			vals[i] = e.get(v, l)
		}
		o := ok(vals)
		status[l] = o
		if !o {
			if e.lanes[l].desc > 0 {
				failedWithDesc = true
			}
			e.kill(l)
		}
	}
	if !baseOk {
		e.killBase(why)
	}
	if failedWithDesc {
		e.compactAlive()
		for _, l := range e.aliveList {
			p := l
			s := baseOk
			for p >= 0 {
				if st, in := status[p]; in {
					s = st
					break
				}
				p = e.lanes[p].parent
			}
			if !s {
				e.kill(l)
			}
		}
		e.compactAlive()
	}
}

func (e *Core) op2(f func(r, a, b *fr.Element), a, b *Var) *Var {
	e.Ops++
	r := new(Var)
	f(&r.V, &a.V, &b.V)
	if len(a.A) == 0 && len(b.A) == 0 {
		return r
	}
	u := e.union(a, b)
	for _, l := range u {
		var x fr.Element
		f(&x, e.get(a, l), e.get(b, l))
		if !x.Equal(e.getRes(r.A, &r.V, e.lanes[l].parent)) {
			r.A = append(r.A, alt{l, x})
		}
	}
	return r
}

func (e *Core) opN(f func(r *fr.Element, in []*fr.Element), in ...*Var) *Var {
	e.Ops++
	r := new(Var)
	vals := make([]*fr.Element, len(in))
	any := false
	for i, v := range in {
		vals[i] = &v.V
		any = any || len(v.A) > 0
	}
	f(&r.V, vals)
	if !any {
		return r
	}
	for _, l := range e.union(in...) {
		for i, v := range in {
			vals[i] = e.get(v, l)
		}
		var x fr.Element
		f(&x, vals)
		if !x.Equal(e.getRes(r.A, &r.V, e.lanes[l].parent)) {
			r.A = append(r.A, alt{l, x})
		}
	}
	return r
}

// ---- frontend.API ----

func (e *Core) Add(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.op2(func(r, x, y *fr.Element) { r.Add(x, y) }, e.In(a), e.In(b))
	for _, c := range in {
		r = e.op2(func(r, x, y *fr.Element) { r.Add(x, y) }, r, e.In(c))
	}
	return r
}

func (e *Core) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	m := e.op2(func(r, x, y *fr.Element) { r.Mul(x, y) }, e.In(b), e.In(c))
	return e.op2(func(r, x, y *fr.Element) { r.Add(x, y) }, e.In(a), m)
}

func (e *Core) Neg(a frontend.Variable) frontend.Variable {
	return e.op2(func(r, x, _ *fr.Element) { r.Neg(x) }, e.In(a), &Var{})
}

func (e *Core) Sub(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.op2(func(r, x, y *fr.Element) { r.Sub(x, y) }, e.In(a), e.In(b))
	for _, c := range in {
		r = e.op2(func(r, x, y *fr.Element) { r.Sub(x, y) }, r, e.In(c))
	}
	return r
}

func (e *Core) Mul(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.op2(func(r, x, y *fr.Element) { r.Mul(x, y) }, e.In(a), e.In(b))
	for _, c := range in {
		r = e.op2(func(r, x, y *fr.Element) { r.Mul(x, y) }, r, e.In(c))
	}
	return r
}

func (e *Core) DivUnchecked(a, b frontend.Variable) frontend.Variable {
	x, y := e.In(a), e.In(b)
	// 0/0 is unconstrained in gnark; a/0 with a!=0 is unsatisfiable
	e.check("DivUnchecked by zero", func(v []*fr.Element) bool { return !v[1].IsZero() || v[0].IsZero() }, x, y)
	return e.op2(func(r, x, y *fr.Element) { var i fr.Element; i.Inverse(y); r.Mul(x, &i) }, x, y)
}

func (e *Core) Div(a, b frontend.Variable) frontend.Variable {
	x, y := e.In(a), e.In(b)
	e.check("Div by zero", func(v []*fr.Element) bool { return !v[0].IsZero() }, y)
	return e.op2(func(r, x, y *fr.Element) { var i fr.Element; i.Inverse(y); r.Mul(x, &i) }, x, y)
}

func (e *Core) Inverse(a frontend.Variable) frontend.Variable {
	return e.Div(1, a)
}

// BatchInvert implements frontend.BatchInverter.
func (e *Core) BatchInvert(in []frontend.Variable) []frontend.Variable {
	out := make([]frontend.Variable, len(in))
	simple := true
	for _, v := range in {
		if len(e.In(v).A) > 0 {
			simple = false
		}
	}
	if !simple {
		for i := range in {
			out[i] = e.Inverse(in[i])
		}
		return out
	}
	xs := make([]fr.Element, len(in))
	for i := range in {
		xs[i] = e.In(in[i]).V
		if xs[i].IsZero() {
			e.check("BatchInvert by zero", func(v []*fr.Element) bool { return false }, &Var{})
		}
	}
	inv := fr.BatchInvert(xs)
	for i := range in {
		out[i] = &Var{V: inv[i]}
	}
	return out
}

func (e *Core) ToBinary(a frontend.Variable, n ...int) []frontend.Variable {
	nb := fr.Bits
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	if _, isVar := a.(*Var); !isVar {
		// constants are decomposed without constraints, as gnark's builders do
		b := Val(a)
		out := make([]frontend.Variable, nb)
		for i := range out {
			out[i] = int(b.Bit(i))
		}
		return out
	}
	return gbits.ToBinary(e.outer, a, gbits.WithNbDigits(nb))
}

func (e *Core) FromBinary(b ...frontend.Variable) frontend.Variable {
	return gbits.FromBinary(e.outer, b)
}

func (e *Core) boolCheck(why string, vs ...*Var) {
	for _, v := range vs {
		e.check(why, func(x []*fr.Element) bool { return x[0].IsZero() || x[0].IsOne() }, v)
	}
}

func (e *Core) Xor(a, b frontend.Variable) frontend.Variable {
	x, y := e.In(a), e.In(b)
	e.boolCheck("Xor operand not boolean", x, y)
	return e.op2(func(r, x, y *fr.Element) {
		var t fr.Element
		t.Mul(x, y).Double(&t)
		r.Add(x, y).Sub(r, &t)
	}, x, y)
}

func (e *Core) Or(a, b frontend.Variable) frontend.Variable {
	x, y := e.In(a), e.In(b)
	e.boolCheck("Or operand not boolean", x, y)
	return e.op2(func(r, x, y *fr.Element) {
		var t fr.Element
		t.Mul(x, y)
		r.Add(x, y).Sub(r, &t)
	}, x, y)
}

func (e *Core) And(a, b frontend.Variable) frontend.Variable {
	x, y := e.In(a), e.In(b)
	e.boolCheck("And operand not boolean", x, y)
	return e.op2(func(r, x, y *fr.Element) { r.Mul(x, y) }, x, y)
}

func (e *Core) Select(b, i1, i2 frontend.Variable) frontend.Variable {
	s := e.In(b)
	e.boolCheck("Select selector not boolean", s)
	return e.opN(func(r *fr.Element, in []*fr.Element) {
		if in[0].IsZero() {
			*r = *in[2]
		} else {
			*r = *in[1]
		}
	}, s, e.In(i1), e.In(i2))
}

func (e *Core) Lookup2(b0, b1, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	s0, s1 := e.In(b0), e.In(b1)
	e.boolCheck("Lookup2 selector not boolean", s0, s1)
	return e.opN(func(r *fr.Element, in []*fr.Element) {
		k := 2
		if !in[0].IsZero() {
			k++
		}
		if !in[1].IsZero() {
			k += 2
		}
		*r = *in[k]
	}, s0, s1, e.In(i0), e.In(i1), e.In(i2), e.In(i3))
}

func (e *Core) IsZero(a frontend.Variable) frontend.Variable {
	return e.op2(func(r, x, _ *fr.Element) {
		if x.IsZero() {
			r.SetOne()
		} else {
			r.SetZero()
		}
	}, e.In(a), &Var{})
}

func (e *Core) Cmp(a, b frontend.Variable) frontend.Variable {
	return e.op2(func(r, x, y *fr.Element) { r.SetInt64(int64(x.Cmp(y))) }, e.In(a), e.In(b))
}

func (e *Core) AssertIsEqual(a, b frontend.Variable) {
	e.check("AssertIsEqual", func(v []*fr.Element) bool { return v[0].Equal(v[1]) }, e.In(a), e.In(b))
}

func (e *Core) AssertIsDifferent(a, b frontend.Variable) {
	e.check("AssertIsDifferent", func(v []*fr.Element) bool { return !v[0].Equal(v[1]) }, e.In(a), e.In(b))
}

func (e *Core) AssertIsBoolean(a frontend.Variable) { e.boolCheck("AssertIsBoolean", e.In(a)) }

func (e *Core) AssertIsLessOrEqual(a, b frontend.Variable) {
	e.check("AssertIsLessOrEqual", func(v []*fr.Element) bool { return v[0].Cmp(v[1]) <= 0 }, e.In(a), e.In(b))
}

// MustBeLessOrEqCst implements the comparison the bit decomposition relies on.
func (e *Core) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, aForDebug frontend.Variable) {
	vs := make([]*Var, len(aBits))
	for i := range aBits {
		vs[i] = e.In(aBits[i])
	}
	e.check("MustBeLessOrEqCst", func(v []*fr.Element) bool {
		s := new(big.Int)
		for i := len(v) - 1; i >= 0; i-- {
			s.Lsh(s, 1)
			if !(v[i].IsZero() || v[i].IsOne()) {
				return false
			}
			if v[i].IsOne() {
				s.SetBit(s, 0, 1)
			}
		}
		return s.Cmp(bound) <= 0
	}, vs...)
}

func (e *Core) Println(a ...frontend.Variable) {}

func (e *apiNative) Compiler() frontend.Compiler { return e }
func (e *apiCommit) Compiler() frontend.Compiler { return e }
func (e *apiPlain) Compiler() frontend.Compiler  { return e }

// Check implements frontend.Rangechecker in native mode.
func (e *apiNative) Check(v frontend.Variable, bits int) {
	e.RangeChk++
	e.rangeCheck(v, bits)
}

func (e *Core) rangeCheck(v frontend.Variable, bits int) {
	x := e.In(v)
	e.check(fmt.Sprintf("range check %d bits", bits), func(val []*fr.Element) bool {
		return BitLen(val[0]) <= bits
	}, x)
}

// BitLen of the canonical integer.
func BitLen(x *fr.Element) int {
	b := x.Bits() // canonical limbs
	for i := 3; i >= 0; i-- {
		if b[i] != 0 {
			n := 0
			for t := b[i]; t != 0; t >>= 1 {
				n++
			}
			return i*64 + n
		}
	}
	return 0
}

// Commit implements frontend.Committer in commit mode.  The commitment is
// computed from the base values and shared by all lanes: the answers an
// adversary picks from the menu do not depend on it.
func (e *apiCommit) Commit(vs ...frontend.Variable) (frontend.Variable, error) {
	h := sha256.New()
	for i := range vs {
		b := e.In(vs[i]).V.Bytes()
		h.Write(b[:])
	}
	var r fr.Element
	r.SetBytes(h.Sum(nil))
	return &Var{V: r}, nil
}

// ---- frontend.Compiler ----

func (e *Core) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	panic("engine: blueprints not supported")
}
func (e *Core) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	panic("engine: instructions not supported")
}
func (e *Core) MarkBoolean(v frontend.Variable)    {}
func (e *Core) IsBoolean(v frontend.Variable) bool { return false }
func (e *Core) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if _, ok := v.(*Var); ok {
		return nil, false
	}
	return Val(v), true
}
func (e *Core) Field() *big.Int  { return new(big.Int).Set(modulus) }
func (e *Core) FieldBitLen() int { return fr.Bits }
func (e *Core) Defer(cb func(api frontend.API) error) {
	if e.opt.OnAPI != nil {
		e.opt.OnAPI("Defer")
	}
	e.deferred = append(e.deferred, cb)
}
func (e *Core) InternalVariable(wireID uint32) frontend.Variable { panic("not supported") }
func (e *Core) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	panic("not supported")
}
func (e *Core) SetGkrInfo(constraint.GkrInfo) error { return errors.New("not supported") }
func (e *Core) SetKeyValue(key, value any)          { e.kv[key] = value }
func (e *Core) GetKeyValue(key any) any {
	if e.opt.OnAPI != nil {
		e.opt.OnAPI("GetKeyValue")
	}
	return e.kv[key]
}
func (e *Core) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	return nil, errors.New("not supported")
}

func callHint(f solver.Hint, in []*big.Int, n int) (out []*big.Int, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("hint panic: %v", p)
		}
	}()
	cp := make([]*big.Int, len(in))
	for i := range in {
		cp[i] = new(big.Int).Set(in[i])
	}
	out = make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	err = f(new(big.Int).Set(modulus), cp, out)
	return out, err
}

func bigFr(b *big.Int) fr.Element {
	var x fr.Element
	x.SetBigInt(b)
	return x
}

func strs(b []*big.Int) []string {
	s := make([]string, len(b))
	for i := range b {
		s[i] = b[i].String()
	}
	return s
}

func (e *Core) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nbOutputs <= 0 {
		return nil, errors.New("hint function must return at least one output")
	}
	ins := make([]*Var, len(inputs))
	anyAlt := false
	inB := make([]*big.Int, len(inputs))
	for i := range inputs {
		ins[i] = e.In(inputs[i])
		anyAlt = anyAlt || len(ins[i].A) > 0
		inB[i] = frBig(&ins[i].V)
	}
	outs := make([]*Var, nbOutputs)
	for i := range outs {
		outs[i] = new(Var)
	}
	if e.opt.OnHint != nil {
		e.opt.OnHint(f, inB, nbOutputs)
	}
	hb, err := callHint(f, inB, nbOutputs)
	if err != nil {
		if e.baseAlive {
			e.killBase("honest hint failed: " + err.Error())
		}
		// the lanes that share these inputs have no honest answer either; they
		// are handled below through the error menu
	} else {
		for i := range outs {
			outs[i].V = bigFr(hb[i])
		}
	}
	idx := e.hints

	type pend struct {
		l    int32
		vals []fr.Element
	}
	var add []pend
	// honest continuation of lanes whose inputs differ
	if anyAlt {
		vals := make([]*big.Int, len(ins))
		for _, l := range e.union(ins...) {
			for i := range ins {
				vals[i] = frBig(e.get(ins[i], l))
			}
			lb, lerr := callHint(f, vals, nbOutputs)
			if lerr == nil {
				p := pend{l: l, vals: make([]fr.Element, nbOutputs)}
				for i := range lb {
					p.vals[i] = bigFr(lb[i])
				}
				add = append(add, p)
				continue
			}
			// no honest answer: the adversary picks; first option continues this lane, others fork from it
			if e.opt.Menu == nil {
				e.kill(l)
				continue
			}
			ms := e.opt.Menu(&HintSite{Idx: idx, NbOut: nbOutputs, In: vals})
			for k, m := range ms {
				p := pend{vals: make([]fr.Element, nbOutputs)}
				for i := range m {
					p.vals[i] = bigFr(m[i])
				}
				if k == 0 {
					p.l = l
				} else {
					p.l = e.newLane(l, e.lanes[l].devs, k)
				}
				e.Forks++
				e.logDev(p.l, idx, k, vals, nil, m)
				add = append(add, p)
			}
			if len(ms) == 0 {
				e.kill(l)
			}
		}
	}
	if e.opt.Menu != nil {
		inRange := idx >= e.opt.From && (e.opt.To == 0 || idx < e.opt.To)
		if err != nil {
			// error menu for the base inputs; base is dead, lanes fork from it
			if inRange {
				for k, m := range e.opt.Menu(&HintSite{Idx: idx, NbOut: nbOutputs, In: inB}) {
					// forks of a base that failed nowhere else but at this hint
					if e.baseFail != "honest hint failed: "+err.Error() || e.lastAsrt != "" {
						break
					}
					l := e.newLane(-1, 1, k)
					p := pend{l: l, vals: make([]fr.Element, nbOutputs)}
					for i := range m {
						p.vals[i] = bigFr(m[i])
					}
					e.Forks++
					e.logDev(l, idx, k, inB, nil, m)
					add = append(add, p)
				}
			}
			e.lastAsrt = "hint"
		} else if e.baseAlive && inRange {
			for k, m := range e.opt.Menu(&HintSite{Idx: idx, NbOut: nbOutputs, In: inB, Honest: hb}) {
				if same(m, hb) {
					continue
				}
				l := e.newLane(-1, 1, k)
				p := pend{l: l, vals: make([]fr.Element, nbOutputs)}
				for i := range m {
					p.vals[i] = bigFr(m[i])
				}
				e.Forks++
				e.logDev(l, idx, k, inB, hb, m)
				add = append(add, p)
			}
		}
		if e.opt.MaxDevs > 1 && e.nAlive > 0 {
			e.compactAlive()
			cur := append([]int32(nil), e.aliveList...)
			vals := make([]*big.Int, len(ins))
			for _, l := range cur {
				ln := e.lanes[l]
				if int(ln.devs) >= e.opt.MaxDevs || int(ln.born) == idx && ln.lastDev == int32(idx) {
					continue
				}
				if e.opt.Window > 0 && idx-int(ln.lastDev) > e.opt.Window {
					continue
				}
				for i := range ins {
					vals[i] = frBig(e.get(ins[i], l))
				}
				lb, lerr := callHint(f, vals, nbOutputs)
				if lerr != nil {
					continue // already forked over the error menu
				}
				for k, m := range e.opt.Menu(&HintSite{Idx: idx, NbOut: nbOutputs, In: vals, Honest: lb}) {
					if same(m, lb) {
						continue
					}
					nl := e.newLane(l, ln.devs+1, k)
					p := pend{l: nl, vals: make([]fr.Element, nbOutputs)}
					for i := range m {
						p.vals[i] = bigFr(m[i])
					}
					e.Forks++
					e.logDev(nl, idx, k, vals, lb, m)
					add = append(add, p)
				}
			}
		}
	}
	if len(add) > 0 {
		sort.SliceStable(add, func(i, j int) bool { return add[i].l < add[j].l })
		for _, p := range add {
			for i := range outs {
				if !p.vals[i].Equal(e.getRes(outs[i].A, &outs[i].V, e.lanes[p.l].parent)) {
					outs[i].A = append(outs[i].A, alt{p.l, p.vals[i]})
				}
			}
		}
	}
	e.hints++
	res := make([]frontend.Variable, nbOutputs)
	for i := range outs {
		res[i] = outs[i]
	}
	return res, nil
}

func same(a, b []*big.Int) bool {
	for i := range a {
		x, y := bigFr(a[i]), bigFr(b[i])
		if !x.Equal(&y) {
			return false
		}
	}
	return true
}

func (e *Core) logDev(l int32, idx, k int, in, honest, out []*big.Int) {
	if !e.opt.KeepTrace {
		return
	}
	e.devLog[l] = &devRec{idx, k, append([]*big.Int(nil), in...), honest, out}
}

// Trace returns the deviations of a lane, oldest first.
func (e *Core) Trace(l int32) []*Deviation {
	var t []*Deviation
	for ; l >= 0; l = e.lanes[l].parent {
		if d := e.devLog[l]; d != nil {
			t = append([]*Deviation{{HintIdx: d.idx, Option: d.opt, Inputs: strs(d.in), Honest: strs(d.honest), Outputs: strs(d.out)}}, t...)
		}
	}
	return t
}

// AltInput turns x into a variable that has other values in fresh lanes (one
// lane per alternative); used to explore tampered inputs in one pass.
func (e *Core) AltInput(x *Var, alts []*big.Int) (ids []int32) {
	for k, a := range alts {
		v := bigFr(a)
		if v.Equal(&x.V) {
			ids = append(ids, -1)
			continue
		}
		l := e.newLane(-1, 1, k)
		x.A = append(x.A, alt{l, v})
		ids = append(ids, l)
	}
	return
}

// InputLane opens a fresh lane whose inputs are then changed with SetAlt.
func (e *Core) InputLane() int32 { return e.newLane(-1, 1, 0) }

// SetAlt gives x another value in lane l (lanes must be set in increasing order per variable).
func (e *Core) SetAlt(x *Var, l int32, a *big.Int) {
	if n := len(x.A); n > 0 && x.A[n-1].lane >= l {
		panic("SetAlt: lanes out of order")
	}
	v := bigFr(a)
	if !v.Equal(&x.V) {
		x.A = append(x.A, alt{l, v})
	}
}

// ---- running ----

// Result of an execution tree.
type Result struct {
	Panic    any // the code under test refused (panicked)
	Err      error
	BaseOK   bool
	BaseFail string
	Alive    []int32
	Hints    int
	NLanes   int
	Forks    int64
	Asserts  int64
	Ops      int64
	RangeChk int64
}

// Run executes define and the deferred callbacks.
func (e *Core) Run(define func(api frontend.API) error) (res Result) {
	func() {
		defer func() {
			if p := recover(); p != nil {
				res.Panic = p
			}
		}()
		res.Err = define(e.outer)
		for i := 0; i < len(e.deferred) && res.Err == nil; i++ {
			res.Err = e.deferred[i](e.outer)
		}
	}()
	e.compactAlive()
	res.BaseOK = e.baseAlive && res.Panic == nil && res.Err == nil
	res.BaseFail = e.baseFail
	if res.Panic != nil {
		res.BaseFail = fmt.Sprint("panic: ", res.Panic)
	} else if res.Err != nil {
		res.BaseFail = "error: " + res.Err.Error()
	}
	if res.Panic == nil && res.Err == nil {
		res.Alive = append([]int32(nil), e.aliveList...)
	}
	res.Hints, res.NLanes, res.Forks, res.Asserts, res.Ops, res.RangeChk = e.hints, len(e.lanes), e.Forks, e.Asserts, e.Ops, e.RangeChk
	return
}

// LaneVal returns the value of x in lane l (-1: base).
func (e *Core) LaneVal(x frontend.Variable, l int32) *big.Int {
	return frBig(e.get(e.In(x), l))
}

// BaseAlive reports whether the honest execution has violated no assertion so far.
func (e *Core) BaseAlive() bool { return e.baseAlive }

// Root returns the outermost ancestor of a lane.
func (e *Core) Root(l int32) int32 {
	for e.lanes[l].parent >= 0 {
		l = e.lanes[l].parent
	}
	return l
}
