package checks

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verifmc/eng"
	"verifmc/ref"
)

// fieldOp is a base-field operation of the chip together with its definition.
type fieldOp struct {
	name  string
	arity int
	do    func(p *gl.Chip, a []gl.Variable) gl.Variable
	def   func(a []ref.F) ref.F
	loose bool // result only congruent
}

var fieldOps = []fieldOp{
	{"Add", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Add(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Add(a[0], a[1]) }, false},
	{"Sub", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Sub(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Sub(a[0], a[1]) }, false},
	{"Mul", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Mul(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Mul(a[0], a[1]) }, false},
	{"MulAdd", 3, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.MulAdd(a[0], a[1], a[2]) }, func(a []ref.F) ref.F { return ref.Add(ref.Mul(a[0], a[1]), a[2]) }, false},
	{"AddNoReduce", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.AddNoReduce(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Add(a[0], a[1]) }, true},
	{"SubNoReduce", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.SubNoReduce(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Sub(a[0], a[1]) }, true},
	{"MulNoReduce", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.MulNoReduce(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Mul(a[0], a[1]) }, true},
	{"MulAddNoReduce", 3, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.MulAddNoReduce(a[0], a[1], a[2]) }, func(a []ref.F) ref.F { return ref.Add(ref.Mul(a[0], a[1]), a[2]) }, true},
	{"Reduce(AddNoReduce)", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Reduce(p.AddNoReduce(a[0], a[1])) }, func(a []ref.F) ref.F { return ref.Add(a[0], a[1]) }, false},
	{"Reduce(SubNoReduce)", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Reduce(p.SubNoReduce(a[0], a[1])) }, func(a []ref.F) ref.F { return ref.Sub(a[0], a[1]) }, false},
	{"Reduce(MulNoReduce)", 2, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Reduce(p.MulNoReduce(a[0], a[1])) }, func(a []ref.F) ref.F { return ref.Mul(a[0], a[1]) }, false},
	{"Reduce(MulAddNoReduce)", 3, func(p *gl.Chip, a []gl.Variable) gl.Variable { return p.Reduce(p.MulAddNoReduce(a[0], a[1], a[2])) }, func(a []ref.F) ref.F { return ref.Add(ref.Mul(a[0], a[1]), a[2]) }, false},
	{"Inverse", 1, func(p *gl.Chip, a []gl.Variable) gl.Variable { r, _ := p.Inverse(a[0]); return r }, func(a []ref.F) ref.F { return ref.Inv(a[0]) }, false},
}

// tuples enumerates all n-tuples over the alphabet.
func tuples(s []ref.F, n int) [][]ref.F {
	out := [][]ref.F{{}}
	for i := 0; i < n; i++ {
		var nx [][]ref.F
		for _, t := range out {
			for _, x := range s {
				nx = append(nx, append(append([]ref.F(nil), t...), x))
			}
		}
		out = nx
	}
	return out
}

// bitLengths has the neighbours of every power of two.
func bitLengths() []ref.F {
	var out []ref.F
	for k := uint(1); k < 64; k++ {
		for d := uint64(0); d < 3; d++ {
			if x := uint64(1)<<k - 1 + d; x < ref.P {
				out = append(out, x)
			}
		}
	}
	return out
}

var modes = []eng.Mode{eng.Native, eng.Plain}

func mkArgs(t []ref.F, constMask int) []gl.Variable {
	a := make([]gl.Variable, len(t))
	for i := range t {
		if constMask>>uint(i)&1 == 1 {
			a[i] = k(t[i])
		} else {
			a[i] = v(t[i])
		}
	}
	return a
}

// widths of reductions explored: all multiples of 16 that a sound reduction admits.
func reduceWidths() []uint64 { return []uint64{16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176} }

// reduceValues enumerates values q*p+r admitted by the width.
func reduceValues(w uint64, th bool) []*big.Int {
	var qs []*big.Int
	top := new(big.Int).Lsh(big.NewInt(1), uint(w))
	qs = append(qs, big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(top, big.NewInt(1)), new(big.Int).Sub(top, big.NewInt(2)), new(big.Int).Rsh(top, 1))
	for b := uint(15); b < uint(w); b += 16 {
		qs = append(qs, new(big.Int).Lsh(big.NewInt(1), b), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b+1), big.NewInt(1)))
	}
	n := 6
	if th {
		n = 14
	}
	var out []*big.Int
	for _, q := range qs {
		if q.Cmp(top) >= 0 {
			continue
		}
		for _, r := range alphabet(n) {
			x := new(big.Int).Mul(q, ref.PBig)
			out = append(out, x.Add(x, u(r)))
		}
	}
	return out
}

func init() {
	reg("C01", func(c *Ctx) {
		n1, n2, n3 := 32, 32, 14
		if c.Thorough() {
			n2, n3 = 32, 32
		}
		c.Set("bounds", map[string]any{"operand_alphabet": []int{n1, n2, n3}, "sequence_depth": seqDepth(c), "modes": []string{"native", "plain"}})
		// 1. every operation on every operand tuple of the alphabet, each operand as variable or constant
		type job struct {
			op   fieldOp
			mode eng.Mode
			mask int
		}
		var jobs []job
		for _, op := range fieldOps {
			for _, m := range modes {
				for mask := 0; mask < 1<<uint(op.arity); mask++ {
					if mask == 1<<uint(op.arity)-1 && op.name == "Inverse" {
						continue
					}
					jobs = append(jobs, job{op, m, mask})
				}
			}
		}
		c.Par(len(jobs), func(i int) {
			j := jobs[i]
			n := []int{0, n1, n2, n3}[j.op.arity]
			ts := tuples(alphabet(n), j.op.arity)
			if j.op.arity == 2 && (j.mode == eng.Native || c.Thorough()) {
				// every bit length against the boundary values, both ways
				for _, x := range bitLengths() {
					for _, y := range alphabet(n) {
						ts = append(ts, []ref.F{x, y}, []ref.F{y, x})
					}
					if c.Thorough() {
						for _, y := range bitLengths() {
							ts = append(ts, []ref.F{x, y})
						}
					}
				}
			}
			for _, t := range ts {
				if j.op.name == "Inverse" && t[0] == 0 {
					continue
				}
				t := t
				c.Do(Case{Key: caseKey(j.op.name, j.mask, t), Mode: j.mode, Want: Accept, Detail: map[string]any{"op": j.op.name, "operands": t, "constant_mask": j.mask},
					Define: func(api frontend.API) []Exp {
						p := gl.New(api)
						a := mkArgs(t, j.mask)
						r := j.op.do(p, a)
						e := expF("result", r, j.op.def(t))
						e.ModP = j.op.loose
						out := []Exp{e}
						for x := range t { // operands are not changed
							out = append(out, expF("operand", a[x], t[x]))
						}
						return out
					}})
			}
		})
		c.Sample(map[string]any{"op": "MulAdd", "operands": []ref.F{ref.P - 1, ref.P - 1, ref.P - 1}, "expected": ref.Add(ref.Mul(ref.P-1, ref.P-1), ref.P-1)})
		// 2. inverse, including zero
		for _, m := range modes {
			for _, x := range alphabet(n1) {
				x := x
				c.Do(Case{Key: caseKey("Inverse", x), Mode: m, Want: Accept, Detail: x, Define: func(api frontend.API) []Exp {
					r, has := gl.New(api).Inverse(v(x))
					if x == 0 {
						return []Exp{{Name: "hasInverse", V: has, Want: u(0)}}
					}
					return []Exp{{Name: "hasInverse", V: has, Want: u(1)}, expF("inverse", r, ref.Inv(x))}
				}})
			}
		}
		// 3. reductions of every boundary value of every width
		ws := reduceWidths()
		c.Par(len(ws)*2, func(i int) {
			w, m := ws[i/2], modes[i%2]
			for _, x := range reduceValues(w, c.Thorough()) {
				x := x
				c.Do(Case{Key: caseKey("ReduceWithMaxBits", w, x), Mode: m, Want: Accept, Detail: x.String(), Define: func(api frontend.API) []Exp {
					return []Exp{expF("result", gl.New(api).ReduceWithMaxBits(vb(x), w), ref.ModP(x))}
				}})
				c.Do(Case{Key: caseKey("ReduceWithMaxBits-constant", w, x), Mode: m, Want: Accept, Detail: x.String(), Define: func(api frontend.API) []Exp {
					return []Exp{expF("result", gl.New(api).ReduceWithMaxBits(gl.NewVariable(new(big.Int).Set(x)), w), ref.ModP(x))}
				}})
				if w == 144 {
					c.Do(Case{Key: caseKey("Reduce", x), Mode: m, Want: Accept, Detail: x.String(), Define: func(api frontend.API) []Exp {
						return []Exp{expF("result", gl.New(api).Reduce(vb(x)), ref.ModP(x))}
					}})
				}
			}
		})
		// 4. all operation sequences up to a depth over a three-register state
		opSequences(c)
	})
}

func seqDepth(c *Ctx) int {
	if c.Thorough() {
		return 4
	}
	return 3
}

// opSequences explores every sequence of operations (each result overwrites the
// oldest register) from every initial register content of a small alphabet and
// compares the whole register file with the model in every state.
func opSequences(c *Ctx) {
	init := tuples([]ref.F{0, 1, ref.P - 1, 1<<32 - 1, 0x9e3779b97f4a7c15}, 3)
	if c.Thorough() {
		init = tuples([]ref.F{0, 1, ref.P - 1, 1<<32 - 1, 0xffffffff00000000, 0x9e3779b97f4a7c15}, 3)
	}
	ops := fieldOps
	depth := seqDepth(c)
	c.Par(len(init), func(i int) {
		api, core := eng.New(eng.Native, eng.Options{})
		var viol string
		var path []string
		var seqs int64
		res := core.Run(func(frontend.API) error {
			p := gl.New(api)
			var dfs func(regs []gl.Variable, model []ref.F, d int)
			dfs = func(regs []gl.Variable, model []ref.F, d int) {
				for x := range regs {
					if got := eng.Val(regs[x].Limb); got.Cmp(u(model[x])) != 0 && viol == "" {
						viol = caseKey("register", x, got, model[x], path)
					}
				}
				if d == 0 || viol != "" || !core.BaseAlive() {
					return
				}
				for _, op := range ops {
					if op.loose || op.name == "Inverse" && model[0] == 0 {
						continue
					}
					path = append(path, op.name)
					r := op.do(p, regs[:op.arity])
					m := op.def(model[:op.arity])
					seqs++
					dfs(append(append([]gl.Variable(nil), regs[1:]...), r), append(append([]ref.F(nil), model[1:]...), m), d-1)
					path = path[:len(path)-1]
					if viol != "" || !core.BaseAlive() {
						return
					}
				}
			}
			dfs(mkArgs(init[i], 0), init[i], depth)
			return nil
		})
		c.Account(res)
		c.State(seqs)
		c.Trace(seqs)
		c.Count("operation_sequences", seqs)
		core.Release()
		if viol != "" {
			c.Violate(caseKey("sequence", init[i]), viol, "after an operation sequence a register differs from the model: %s", viol)
		} else if !res.BaseOK {
			c.Violate(caseKey("sequence", init[i]), path, "an operation sequence is not satisfiable: %s", clip(res.BaseFail))
		}
	})
}
