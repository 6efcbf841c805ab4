package checks

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verifmc/eng"
	"verifmc/ref"
)

// a circuit whose definition is a closure over its inputs
type funC struct {
	In  []frontend.Variable
	def *func(api frontend.API, in []frontend.Variable) error
}

func (c *funC) Define(api frontend.API) error { return (*c.def)(api, c.In) }

var builders = []struct {
	name string
	nb   frontend.NewBuilder
}{{"r1cs", r1cs.NewBuilder}, {"scs", scs.NewBuilder}}

func guarded(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

func compileF(nb frontend.NewBuilder, nin int, def func(api frontend.API, in []frontend.Variable) error) (ccs constraint.ConstraintSystem, err error) {
	err = guarded(func() error {
		var e error
		ccs, e = frontend.Compile(ecc.BN254.ScalarField(), nb, &funC{In: make([]frontend.Variable, nin), def: &def})
		return e
	})
	return
}

func solveF(ccs constraint.ConstraintSystem, in []*big.Int, opts ...solver.Option) error {
	w := &funC{In: make([]frontend.Variable, len(in))}
	for i := range in {
		w.In[i] = in[i]
	}
	return guarded(func() error {
		wit, err := frontend.NewWitness(w, ecc.BN254.ScalarField())
		if err != nil {
			return err
		}
		return ccs.IsSolved(wit, append(commitOpts(ccs), opts...)...)
	})
}

func safeHint(h solver.Hint) solver.Hint {
	return func(m *big.Int, in []*big.Int, out []*big.Int) (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("hint panic: %v", p)
			}
		}()
		return h(m, in, out)
	}
}

// commitOpts supplies the commitment hash that the provers compute.
// Hints that panic (in the solver's goroutines) become errors.
func commitOpts(ccs constraint.ConstraintSystem) (opts []solver.Option) {
	for _, h := range solver.GetRegisteredHints() {
		opts = append(opts, solver.OverrideHint(solver.GetHintID(h), safeHint(h)))
	}
	h := func(_ *big.Int, in []*big.Int, out []*big.Int) error {
		acc := big.NewInt(0x1357)
		m := ecc.BN254.ScalarField()
		for _, x := range in {
			acc.Mul(acc, big.NewInt(0x10001)).Add(acc, x).Mod(acc, m)
		}
		acc.Exp(acc, big.NewInt(5), m)
		out[0].Set(acc)
		return nil
	}
	switch x := ccs.GetCommitments().(type) {
	case constraint.Groth16Commitments:
		for i := range x {
			opts = append(opts, solver.OverrideHint(x[i].HintID, h))
		}
	case constraint.PlonkCommitments:
		for i := range x {
			opts = append(opts, solver.OverrideHint(x[i].HintID, h))
		}
	}
	return
}

// prog is a straight-line gadget program; it returns everything whose value must be as the circuit semantics says.
type prog struct {
	name string
	f    func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable
}

// pool of operands in every form a builder distinguishes: wires, linear
// combinations with and without room to grow, products, constants
const nForms = 6

func pool(api frontend.API, g *gl.Chip, in []frontend.Variable) []gl.Variable {
	v := gl.NewVariable
	sum := v(api.Add(in[0], in[1]))
	acc := g.MulAddNoReduce(v(in[0]), v(3), v(in[1]))
	return []gl.Variable{v(in[0]), v(in[1]), sum, acc, v(7), g.MulAddNoReduce(v(in[0]), v(in[1]), v(api.Add(in[1], in[2])))}
}

type gop struct {
	name string
	n    int // operands
	f    func(g *gl.Chip, a []gl.Variable) []gl.Variable
}

func one(x gl.Variable) []gl.Variable { return []gl.Variable{x} }

var gops = []gop{
	{"MulAddNoReduce", 3, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.MulAddNoReduce(a[0], a[1], a[2])) }},
	{"MulAdd", 3, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.MulAdd(a[0], a[1], a[2])) }},
	{"AddNoReduce", 2, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.AddNoReduce(a[0], a[1])) }},
	{"MulNoReduce", 2, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.MulNoReduce(a[0], a[1])) }},
	{"SubNoReduce", 2, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.SubNoReduce(a[0], a[1])) }},
	{"Add", 2, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.Add(a[0], a[1])) }},
	{"Sub", 2, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.Sub(a[0], a[1])) }},
	{"Mul", 2, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.Mul(a[0], a[1])) }},
	{"Reduce", 1, func(g *gl.Chip, a []gl.Variable) []gl.Variable { return one(g.Reduce(a[0])) }},
	{"Inverse", 1, func(g *gl.Chip, a []gl.Variable) []gl.Variable {
		x, h := g.Inverse(a[0])
		return []gl.Variable{x, gl.NewVariable(h)}
	}},
	{"RangeCheck", 1, func(g *gl.Chip, a []gl.Variable) []gl.Variable { g.RangeCheck(a[0]); return nil }},
}

func limbs(vs []gl.Variable) []frontend.Variable {
	var o []frontend.Variable
	for _, x := range vs {
		o = append(o, x.Limb)
	}
	return o
}

func idxTuples(n, base int, f func(t []int)) {
	t := make([]int, n)
	for {
		f(append([]int{}, t...))
		i := 0
		for ; i < n; i++ {
			t[i]++
			if t[i] < base {
				break
			}
			t[i] = 0
		}
		if i == n {
			return
		}
	}
}

type circExtOp struct {
	name string
	n    int
	f    func(api frontend.API, g *gl.Chip, a []gl.QuadraticExtensionVariable, in []frontend.Variable) []gl.QuadraticExtensionVariable
}

// circExtOps are the operations on extension elements.
func circExtOps() []circExtOp {
	w1 := func(x gl.QuadraticExtensionVariable) []gl.QuadraticExtensionVariable {
		return []gl.QuadraticExtensionVariable{x}
	}
	type Q = gl.QuadraticExtensionVariable
	return []circExtOp{
		{"AddExtension", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.AddExtension(a[0], a[1]))
		}},
		{"AddExtensionNoReduce", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.AddExtensionNoReduce(a[0], a[1]))
		}},
		{"SubExtension", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.SubExtension(a[0], a[1]))
		}},
		{"SubExtensionNoReduce", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.SubExtensionNoReduce(a[0], a[1]))
		}},
		{"MulExtension", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.MulExtension(a[0], a[1]))
		}},
		{"MulExtensionNoReduce", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.MulExtensionNoReduce(a[0], a[1]))
		}},
		{"MulAddExtension", 3, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.MulAddExtension(a[0], a[1], a[2]))
		}},
		{"MulAddExtensionNoReduce", 3, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.MulAddExtensionNoReduce(a[0], a[1], a[2]))
		}},
		{"SubMulExtension", 3, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.SubMulExtension(a[0], a[1], a[2]))
		}},
		{"ScalarMulExtension", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.ScalarMulExtension(a[0], a[1][0]))
		}},
		{"InnerProductExtension", 3, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.InnerProductExtension(gl.NewVariable(7), a[0], [][2]Q{{a[1], a[2]}, {a[2], a[0]}}))
		}},
		{"InverseExtension", 1, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			x, _ := g.InverseExtension(a[0])
			return w1(x)
		}},
		{"DivExtension", 2, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			x, _ := g.DivExtension(a[0], a[1])
			return w1(x)
		}},
		{"ExpExtension", 1, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return []Q{g.ExpExtension(a[0], 0), g.ExpExtension(a[0], 1), g.ExpExtension(a[0], 5)}
		}},
		{"ReduceExtension", 1, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q { return w1(g.ReduceExtension(a[0])) }},
		{"ReduceWithPowers", 3, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(g.ReduceWithPowers([]Q{a[0], a[1], a[2]}, a[0]))
		}},
		{"IsZero", 1, func(_ frontend.API, g *gl.Chip, a []Q, _ []frontend.Variable) []Q {
			return w1(Q{gl.NewVariable(g.IsZero(a[0])), gl.Zero()})
		}},
		{"Lookup", 2, func(api frontend.API, g *gl.Chip, a []Q, in []frontend.Variable) []Q {
			return []Q{g.Lookup(in[3], a[0], a[1]), g.Lookup(in[4], a[0], a[1])}
		}},
		{"Lookup2", 3, func(api frontend.API, g *gl.Chip, a []Q, in []frontend.Variable) []Q {
			return []Q{g.Lookup2(in[3], in[4], a[0], a[1], a[2], a[0]), g.Lookup2(in[4], in[3], a[0], a[1], a[2], a[0]), g.Lookup2(in[4], in[4], a[0], a[1], a[2], a[1])}
		}},
	}
}

// programs enumerates gadget compositions.
func programs(deep bool) []prog {
	var out []prog
	pick := func(p []gl.Variable, t []int) []gl.Variable {
		var o []gl.Variable
		for _, i := range t {
			o = append(o, p[i])
		}
		return o
	}
	// one operation, all operand forms
	for _, op := range gops {
		op := op
		idxTuples(op.n, nForms, func(t []int) {
			out = append(out, prog{fmt.Sprintf("%s%v", op.name, t), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
				p := pool(api, g, in)
				r := op.f(g, pick(p, t))
				return limbs(append(p, r...))
			}})
		})
	}
	// two operations: the second uses the first result and pool elements that stay in use
	firsts := [][]int{{2, 3, 5}, {0, 1, 2}, {3, 0, 3}}
	for _, a := range gops {
		if a.name == "RangeCheck" {
			continue
		}
		for fi, ft := range firsts {
			if fi > 0 && !deep && a.n < 2 {
				continue
			}
			for _, b := range gops {
				a, b, ft := a, b, ft[:a.n]
				idxTuples(b.n, 3, func(t []int) {
					uses := false
					for _, x := range t {
						uses = uses || x == 0
					}
					if !uses {
						return
					}
					out = append(out, prog{fmt.Sprintf("%s%v;%s%v", a.name, ft, b.name, t), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
						p := pool(api, g, in)
						r := a.f(g, pick(p, ft))
						opd := []gl.Variable{r[0], p[2], p[5]}
						s := b.f(g, pick(opd, t))
						return limbs(append(append(p, r...), s...))
					}})
				})
			}
		}
	}
	// chains of accumulations over one accumulator, all intermediate values stay in use
	for _, n := range []int{2, 3, 4, 6} {
		for start := 0; start < nForms; start++ {
			n, start := n, start
			out = append(out, prog{fmt.Sprintf("accumulate%d from %d", n, start), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
				p := pool(api, g, in)
				acc := p[start]
				all := append([]gl.Variable{}, p...)
				for i := 0; i < n; i++ {
					acc = g.MulAddNoReduce(p[i%2], p[(i+1)%nForms], acc)
					all = append(all, acc)
				}
				return limbs(all)
			}})
			out = append(out, prog{fmt.Sprintf("shared accumulator %d from %d", n, start), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
				p := pool(api, g, in)
				all := append([]gl.Variable{}, p...)
				for i := 0; i < n; i++ {
					all = append(all, g.MulAddNoReduce(p[i%2], gl.NewVariable(2+i), p[start]))
				}
				return limbs(all)
			}})
		}
	}
	// extension operations
	eops := circExtOps()

	type Q = gl.QuadraticExtensionVariable
	// gnark's PLONK builder divides by zero when it selects between a variable
	// and itself twice; that is not about the code under test
	degenerate := func(name string, t []int) bool {
		if name != "Lookup" && name != "Lookup2" {
			return false
		}
		for i := range t {
			for j := range t[:i] {
				if t[i] == t[j] {
					return true
				}
			}
		}
		return false
	}
	epool := func(p []gl.Variable) []Q {
		return []Q{{p[0], p[1]}, {p[2], p[5]}, {p[3], p[3]}, {p[4], p[2]}}
	}
	el := func(qs []Q) []frontend.Variable {
		var o []frontend.Variable
		for _, q := range qs {
			o = append(o, q[0].Limb, q[1].Limb)
		}
		return o
	}
	for _, op := range eops {
		op := op
		idxTuples(op.n, 4, func(t []int) {
			if degenerate(op.name, t) {
				return
			}
			out = append(out, prog{fmt.Sprintf("%s%v", op.name, t), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
				p := pool(api, g, in)
				e := epool(p)
				var a []Q
				for _, i := range t {
					a = append(a, e[i])
				}
				r := op.f(api, g, a, in)
				return append(append(limbs(p), el(e)...), el(r)...)
			}})
		})
		for _, op2 := range eops {
			if !deep && op2.n > 2 {
				continue
			}
			op2 := op2
			idxTuples(op2.n, 2, func(t []int) {
				if degenerate(op2.name, t) {
					return
				}
				out = append(out, prog{fmt.Sprintf("%s;%s%v", op.name, op2.name, t), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
					p := pool(api, g, in)
					e := epool(p)
					r := op.f(api, g, []Q{e[1], e[2], e[0]}[:op.n], in)
					var a []Q
					for _, i := range t {
						a = append(a, []Q{r[len(r)-1], e[1]}[i])
					}
					s := op2.f(api, g, a, in)
					return append(append(append(limbs(p), el(e)...), el(r)...), el(s)...)
				}})
			})
		}
	}
	// gates over wires and constants in every form
	seen := map[string]int{}
	for _, gt := range gateSet(deep) {
		lim, rots := 2, 2
		if deep {
			lim, rots = 6, nForms
		}
		if strings.HasPrefix(gt.Name, "Poseidon") {
			rots = 1
		}
		if gt.Wires > 140 && !deep || seen[gt.Name] >= lim {
			continue
		}
		seen[gt.Name]++
		for rot := 0; rot < rots; rot++ {
			gt, rot := gt, rot
			out = append(out, prog{fmt.Sprintf("%s rotated by %d", gt.ID, rot), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
				p := pool(api, g, in)
				e := append(epool(p), Q{p[1], p[4]}, Q{p[5], p[0]}, Q{p[0], gl.Zero()})
				vec := func(n, off int) (o []Q) {
					for i := 0; i < n; i++ {
						o = append(o, e[(i*(rot+1)+off+rot)%len(e)])
					}
					return
				}
				w, k := vec(gt.Wires, 0), vec(gt.Consts, 1)
				r := gates.GateInstanceFromId(gt.ID).EvalUnfiltered(api, g, *gates.NewEvaluationVars(k, w, poseidon.GoldilocksHashOut{p[0], p[2], p[4], p[5]}))
				return append(append(append(limbs(p), el(e)...), el(w)...), el(r)...)
			}})
		}
	}
	// hashes over operands in every form
	for rot := 0; rot < nForms; rot++ {
		rot := rot
		out = append(out, prog{fmt.Sprintf("Poseidon rotated by %d", rot), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
			p := pool(api, g, in)
			var st poseidon.GoldilocksState
			for i := range st {
				st[i] = p[(i+rot)%nForms]
			}
			r := poseidon.NewGoldilocksChip(api).Poseidon(st)
			return limbs(append(append(p, st[:]...), r[:]...))
		}}, prog{fmt.Sprintf("BN254 Poseidon rotated by %d", rot), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
			p := pool(api, g, in)
			h := poseidon.NewBN254Chip(api)
			var x []gl.Variable
			for i := 0; i < 10; i++ {
				x = append(x, p[(i+rot)%nForms])
			}
			a := h.HashNoPad(x)
			b := h.HashOrNoop(x[:3])
			t := h.TwoToOne(a, b)
			o := append(limbs(p), limbs(x)...)
			o = append(o, a, b, t)
			return append(o, limbs(h.ToVec(t))...)
		}}, prog{fmt.Sprintf("HashNoPad rotated by %d", rot), func(api frontend.API, g *gl.Chip, in []frontend.Variable) []frontend.Variable {
			p := pool(api, g, in)
			var x []gl.Variable
			for i := 0; i < 9; i++ {
				x = append(x, p[(i+rot)%nForms])
			}
			r := poseidon.NewGoldilocksChip(api).HashNoPad(x)
			return limbs(append(append(p, x...), r[:]...))
		}})
	}
	return out
}

func init() {
	reg("C27", func(c *Ctx) {
		c.Assume("gnark's builders and solver are the oracle for what a compiled constraint system accepts; commitment challenges are replaced by a hash of the committed values")
		logger.Disable()
		defer os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
		in := []*big.Int{big.NewInt(3), big.NewInt(5), big.NewInt(11), big.NewInt(0), big.NewInt(1)}
		// part 1: the full verifier, compiled with the commitment range checker
		c.compiledVerifier()
		if c.Enough0() {
			return
		}
		os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
		// part 2: gadget programs
		ps := programs(c.Thorough())
		type want struct {
			p    prog
			vals []*big.Int
		}
		ws := make([]*want, len(ps))
		c.Par(len(ps), func(i int) {
			api, core := eng.New(eng.Plain, eng.Options{})
			defer core.Release()
			var w want
			res := core.Run(func(frontend.API) error {
				var iv []frontend.Variable
				for _, x := range in {
					iv = append(iv, eng.NewVar(x))
				}
				for _, o := range ps[i].f(api, gl.New(api), iv) {
					w.vals = append(w.vals, eng.Val(o))
				}
				return nil
			})
			c.Account(res)
			if res.Panic == nil && res.Err == nil && res.BaseOK {
				w.p = ps[i]
				ws[i] = &w
			}
		})
		var live []*want
		for _, w := range ws {
			if w != nil {
				live = append(live, w)
			}
		}
		c.Set("programs", len(ps))
		c.Set("programs_with_a_value", len(live))
		build := func(b int, group []*want, wrong int) (constraint.ConstraintSystem, error) {
			return compileF(builders[b].nb, len(in), func(api frontend.API, iv []frontend.Variable) error {
				g := gl.New(api)
				for k, w := range group {
					outs := w.p.f(api, g, iv)
					for j, o := range outs {
						v := w.vals[j]
						if wrong >= 0 && k == 0 && j == wrong {
							v = new(big.Int).Add(v, big.NewInt(1))
						}
						api.AssertIsEqual(o, v)
					}
				}
				return nil
			})
		}
		var groups [][]*want
		for i := 0; i < len(live); i += 60 {
			groups = append(groups, live[i:min(i+60, len(live))])
		}
		c.Par(2*len(groups), func(i int) {
			b, g := i%2, groups[i/2]
			ccs, err := build(b, g, -1)
			if err == nil {
				c.Count("constraints", int64(ccs.GetNbConstraints()))
				err = solveF(ccs, in)
			}
			c.Trace(int64(len(g)))
			c.State(int64(len(g)))
			if err == nil {
				return
			}
			for _, w := range g {
				ccs, err := build(b, []*want{w}, -1)
				if err == nil {
					err = solveF(ccs, in)
				}
				if err != nil {
					c.Violate(caseKey(builders[b].name, w.p.name), w.p.name, "%s: program %s: the compiled system does not accept the values of the circuit semantics: %s", builders[b].name, w.p.name, clip(err.Error()))
					if c.Enough() {
						return
					}
				}
			}
			if !c.Enough0() {
				c.Violate(caseKey(builders[b].name, "group", i), nil, "%s: a group of programs fails together: %s", builders[b].name, clip(err.Error()))
			}
		})
		// every output is forced: one wrong output per program
		step := 23
		if c.Thorough() {
			step = 3
		}
		var neg []*want
		for i := 0; i < len(live); i += step {
			neg = append(neg, live[i])
		}
		c.Par(2*len(neg), func(i int) {
			b, w := i%2, neg[i/2]
			// the last values are results
			for j := len(w.vals) - 1; j >= 0 && j >= len(w.vals)-2; j-- {
				ccs, err := build(b, []*want{w}, j)
				if err == nil {
					err = solveF(ccs, in)
				}
				c.Trace(1)
				c.State(1)
				if err == nil {
					c.Violate(caseKey(builders[b].name, w.p.name, "wrong", j), w.p.name, "%s: program %s accepts a wrong value for output %d", builders[b].name, w.p.name, j)
				}
			}
		})
		if c.Enough0() {
			return
		}
		c.adviceConformance()
		debug.FreeOSMemory()
	})
}

// adviceConformance replays every advice deviation of the core gadgets against
// the compiled systems.
func (c *Ctx) adviceConformance() {
	type gad struct {
		name string
		ins  [][]*big.Int
		f    func(api frontend.API, in []frontend.Variable) []frontend.Variable
	}
	v := gl.NewVariable
	al := [][]*big.Int{}
	for _, x := range []string{"0", "1", "4294967295", "4294967296", "18446744069414584320", "18446744069414584321", "18446744069414584325", "18446744073709551615", "18446744073709551616", "79228162495817593519834398719", "5708990770823839524233143877797980545530986495"} {
		b, _ := new(big.Int).SetString(x, 10)
		al = append(al, []*big.Int{b})
	}
	three := func(s ...string) []*big.Int {
		var o []*big.Int
		for _, x := range s {
			b, _ := new(big.Int).SetString(x, 10)
			o = append(o, b)
		}
		return o
	}
	m1 := "18446744069414584320"
	gads := []gad{
		{"RangeCheck", al, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			gl.New(api).RangeCheck(v(in[0]))
			return nil
		}},
		{"Reduce", al, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{gl.New(api).Reduce(v(in[0])).Limb}
		}},
		{"ReduceWithMaxBits64", al, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{gl.New(api).ReduceWithMaxBits(v(in[0]), 64).Limb}
		}},
		{"RangeCheckWithMaxBits32", al, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			gl.New(api).RangeCheckWithMaxBits(v(in[0]), 32)
			return nil
		}},
		{"MulAdd", [][]*big.Int{three("3", "5", "7"), three(m1, m1, m1), three("0", m1, "1"), three("4294967296", "4294967296", "9")}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{gl.New(api).MulAdd(v(in[0]), v(in[1]), v(in[2])).Limb}
		}},
		{"Inverse", [][]*big.Int{three("3"), three(m1), three("1"), three("0")}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			x, h := gl.New(api).Inverse(v(in[0]))
			return []frontend.Variable{x.Limb, h}
		}},
		{"InverseExtension", [][]*big.Int{three("3", "4"), three("0", "1"), three("0", "0"), three("1", "0")}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			x, _ := gl.New(api).InverseExtension(gl.QuadraticExtensionVariable{v(in[0]), v(in[1])})
			return []frontend.Variable{x[0].Limb, x[1].Limb}
		}},
		{"ToVec", [][]*big.Int{three("12345678901234567890123456789012345678901234567890"), three("0"), {new(big.Int).Sub(ecc.BN254.ScalarField(), big.NewInt(1))}}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return limbs(poseidon.NewBN254Chip(api).ToVec(in[0]))
		}},
	}
	type job struct {
		g  gad
		b  int
		in []*big.Int
	}
	var jobs []job
	type key struct {
		g string
		b int
	}
	ccss := map[key]constraint.ConstraintSystem{}
	for _, g := range gads {
		for b := range builders {
			g := g
			ccs, err := compileF(builders[b].nb, len(g.ins[0]), func(api frontend.API, iv []frontend.Variable) error {
				g.f(api, iv)
				return nil
			})
			if err != nil {
				c.Violate(caseKey("compile", g.name), nil, "%s does not compile with %s: %v", g.name, builders[b].name, err)
				return
			}
			ccss[key{g.name, b}] = ccs
			for _, in := range g.ins {
				jobs = append(jobs, job{g, b, in})
			}
		}
	}
	registered := solver.GetRegisteredHints()
	level := eng.Small
	if c.Thorough() {
		level = eng.Full
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		ccs := ccss[key{j.g.name, j.b}]
		// the execution tree of the circuit semantics
		type dev struct {
			idx      int
			in, outs []*big.Int
			alive    bool
		}
		var devs []dev
		seen := map[string]int{}
		run := func(menu func(s *eng.HintSite) [][]*big.Int) (eng.Result, *eng.Core) {
			api, core := eng.New(eng.Plain, eng.Options{Menu: menu, MaxDevs: 1})
			res := core.Run(func(frontend.API) error {
				var iv []frontend.Variable
				for _, x := range j.in {
					iv = append(iv, eng.NewVar(x))
				}
				j.g.f(api, iv)
				return nil
			})
			return res, core
		}
		res, core := run(func(s *eng.HintSite) [][]*big.Int {
			alts := eng.Menu(level)(s)
			seen[fmt.Sprint(s.NbOut, s.In)]++
			for _, a := range alts {
				if fmt.Sprint(a) == fmt.Sprint(s.Honest) {
					continue
				}
				devs = append(devs, dev{idx: s.Idx, in: append([]*big.Int{}, s.In...), outs: a})
			}
			return nil
		})
		core.Release()
		c.Account(res)
		// honest advice
		err := solveF(ccs, j.in)
		if (err == nil) != res.BaseOK {
			c.Violate(caseKey(builders[j.b].name, j.g.name, j.in), fmt.Sprint(j.in), "%s: %s on %v: compiled system accepts=%v, circuit semantics accepts=%v", builders[j.b].name, j.g.name, j.in, err == nil, res.BaseOK)
			return
		}
		c.Trace(1)
		for _, d := range devs {
			if seen[fmt.Sprint(len(d.outs), d.in)] > 1 {
				continue
			}
			d := d
			res, core := run(func(s *eng.HintSite) [][]*big.Int {
				if s.Idx == d.idx {
					return [][]*big.Int{d.outs}
				}
				return nil
			})
			alive := len(res.Alive) > 0
			core.Release()
			c.Account(res)
			var opts []solver.Option
			var mu sync.Mutex
			applied := false
			for _, h := range registered {
				h := h
				opts = append(opts, solver.OverrideHint(solver.GetHintID(h), func(m *big.Int, in []*big.Int, out []*big.Int) error {
					if len(in) == len(d.in) && len(out) == len(d.outs) {
						same := true
						for k := range in {
							same = same && in[k].Cmp(d.in[k]) == 0
						}
						if same {
							mu.Lock()
							applied = true
							mu.Unlock()
							for k := range out {
								out[k].Set(d.outs[k])
							}
							return nil
						}
					}
					return safeHint(h)(m, in, out)
				}))
			}
			err := solveF(ccs, j.in, opts...)
			c.Trace(1)
			if !applied {
				c.Count("deviations_without_counterpart", 1)
				continue
			}
			c.Count("advice_traces_replayed", 1)
			if (err == nil) != alive {
				c.Violate(caseKey(builders[j.b].name, j.g.name, j.in, d.outs), fmt.Sprint(d), "%s: %s on %v with advice %v: compiled system accepts=%v, circuit semantics accepts=%v", builders[j.b].name, j.g.name, j.in, d.outs, err == nil, alive)
				return
			}
		}
	})
}

// fullC is the whole verifier with the proof as witness.
type fullC struct {
	P  variables.ProofWithPublicInputs
	VK variables.VerifierOnlyCircuitData
	cd types.CommonCircuitData
}

func (f *fullC) Define(api frontend.API) error {
	verifier.NewVerifierChip(api, f.cd).Verify(f.P.Proof, f.P.PublicInputs, f.VK)
	return nil
}

func (c *Ctx) compiledVerifier() {
	os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
	insts := []*instance{gen("compiled", stdGates(), []int{2, 2}, 4, 1, 0, 1, 1, 8, 8, 3, 0)}
	if c.Thorough() {
		insts = append(insts, gen("compiled-fold", stdGates(), []int{2, 2}, 5, 3, 0, 2, 2, 8, 4, 5, 1), gen("compiled-all-gates", []ref.Gate{ref.GNoop(), ref.GConstant(2), ref.GPublicInput(), ref.GBaseSum(4, 2), ref.GReducing(3), ref.GArithmetic(3), ref.GArithmeticExt(2), ref.GMulExt(2), ref.GExponentiation(4), ref.GRandomAccess(2, 1, 2), ref.GPoseidonMds(), ref.GCosetInterpolation(2, 3), ref.GPoseidon()},
			[]int{5, 4, 3, 1}, 4, 3, 0, 2, 2, 12, 8, 5, 0))
	}
	asg := func(in *instance, p *ref.Proof, vk *ref.VK) *fullC {
		pv, vkv := proofVars(p), vkVars(vk)
		toConsts(&pv, &vkv)
		for i := range pv.PublicInputs {
			pv.PublicInputs[i].Limb = eng.Val(pv.PublicInputs[i].Limb)
		}
		return &fullC{pv, vkv, commonData(in.com)}
	}
	for _, in := range insts {
		in.init()
		c.ParN(2, len(builders), func(b int) {
			var ccs constraint.ConstraintSystem
			err := guarded(func() (e error) {
				ccs, e = frontend.Compile(ecc.BN254.ScalarField(), builders[b].nb, asg(in, in.p, in.vk))
				return
			})
			if err != nil {
				c.Violate(caseKey("compile verifier", builders[b].name), in.String(), "the verifier does not compile with %s: %v", builders[b].name, err)
				return
			}
			c.Count("verifier_constraints_"+builders[b].name, int64(ccs.GetNbConstraints()))
			ss := sites(in.p, in.vk)
			tries := []int{-1}
			// one site of every kind
			kinds := map[string]bool{}
			for k, s := range ss {
				n := strings.Map(func(r rune) rune {
					if r >= '0' && r <= '9' {
						return -1
					}
					return r
				}, s.Name)
				if !kinds[n] {
					kinds[n] = true
					if c.Thorough() || k%2 == b {
						tries = append(tries, k)
					}
				}
			}
			c.ParN(3, len(tries), func(i int) {
				k := tries[i]
				p, vk := cloneProof(in.p), cloneVK(in.vk)
				name := "unchanged"
				if k >= 0 {
					s := sites(p, vk)[k]
					s.set(new(big.Int).Add(s.get(), big.NewInt(1)))
					name = s.Name
				}
				want := in.com.Verify(vk, p) == nil
				err := guarded(func() error {
					wit, e := frontend.NewWitness(asg(in, p, vk), ecc.BN254.ScalarField())
					if e != nil {
						return e
					}
					return ccs.IsSolved(wit, commitOpts(ccs)...)
				})
				c.Trace(1)
				c.State(1)
				if (err == nil) != want {
					c.Violate(caseKey("verifier", builders[b].name, name), name, "%s: compiled verifier on a proof with %s changed: accepts=%v, expected %v (%v)", builders[b].name, name, err == nil, want, err)
				}
				c.Count("compiled_verdicts", 1)
			})
		})
	}
}
