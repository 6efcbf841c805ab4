package ref

import (
	"fmt"
	"strings"
)

// Gate is the definition of a gate: its constraints from wires, constants
// (selector columns removed) and the public input hash.
type Gate struct {
	ID     string // as plonky2 prints it
	Name   string
	Wires  int
	Consts int
	Num    int // constraints
	Degree int
	Eval   func(k, w []E, pih [4]F) []E
	// Fill completes wires (base field) so that all constraints vanish; k are
	// the gate constants.  nil: any wires do.
	Fill func(k []F, w []F, pih [4]F)
}

const phantom = "PhantomData<plonky2_field::goldilocks_field::GoldilocksField>"

func alg(w []E, i int) A { return A{w[i], w[i+1]} }
func algF(w []F, i int) A {
	return A{E{w[i], 0}, E{w[i+1], 0}}
}
func putA(w []F, i int, a A) {
	if a[0][1] != 0 || a[1][1] != 0 {
		panic("not a base algebra element")
	}
	w[i], w[i+1] = a[0][0], a[1][0]
}

func GNoop() Gate {
	return Gate{ID: "NoopGate", Name: "Noop", Eval: func(k, w []E, _ [4]F) []E { return nil }}
}

func GConstant(n int) Gate {
	return Gate{ID: fmt.Sprintf("ConstantGate { num_consts: %d }", n), Name: "Constant", Wires: n, Consts: n, Num: n, Degree: 1,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			for i := 0; i < n; i++ {
				o = append(o, ESub(k[i], w[i]))
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) { copy(w[:n], k[:n]) },
	}
}

func GPublicInput() Gate {
	return Gate{ID: "PublicInputGate", Name: "PublicInput", Wires: 4, Num: 4, Degree: 1,
		Eval: func(k, w []E, h [4]F) []E {
			var o []E
			for i := 0; i < 4; i++ {
				o = append(o, ESub(w[i], EFrom(h[i])))
			}
			return o
		},
		Fill: func(k, w []F, h [4]F) { copy(w[:4], h[:]) },
	}
}

func GArithmetic(n int) Gate {
	return Gate{ID: fmt.Sprintf("ArithmeticGate { num_ops: %d }", n), Name: "Arithmetic", Wires: 4 * n, Consts: 2, Num: n, Degree: 3,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			for i := 0; i < n; i++ {
				x := w[4*i:]
				o = append(o, ESub(x[3], EAdd(EMul(EMul(x[0], x[1]), k[0]), EMul(x[2], k[1]))))
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			for i := 0; i < n; i++ {
				x := w[4*i:]
				x[3] = Add(Mul(Mul(x[0], x[1]), k[0]), Mul(x[2], k[1]))
			}
		},
	}
}

func GArithmeticExt(n int) Gate {
	return Gate{ID: fmt.Sprintf("ArithmeticExtensionGate { num_ops: %d }", n), Name: "ArithmeticExtension", Wires: 8 * n, Consts: 2, Num: 2 * n, Degree: 3,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			for i := 0; i < n; i++ {
				m := AMul(alg(w, 8*i), alg(w, 8*i+2))
				c := ASub(alg(w, 8*i+6), AAdd(AScale(k[0], m), AScale(k[1], alg(w, 8*i+4))))
				o = append(o, c[0], c[1])
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			for i := 0; i < n; i++ {
				m := AMul(algF(w, 8*i), algF(w, 8*i+2))
				putA(w, 8*i+6, AAdd(AScale(E{k[0]}, m), AScale(E{k[1]}, algF(w, 8*i+4))))
			}
		},
	}
}

func GMulExt(n int) Gate {
	return Gate{ID: fmt.Sprintf("MulExtensionGate { num_ops: %d }", n), Name: "MulExtension", Wires: 6 * n, Consts: 1, Num: 2 * n, Degree: 3,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			for i := 0; i < n; i++ {
				c := ASub(alg(w, 6*i+4), AScale(k[0], AMul(alg(w, 6*i), alg(w, 6*i+2))))
				o = append(o, c[0], c[1])
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			for i := 0; i < n; i++ {
				putA(w, 6*i+4, AScale(E{k[0]}, AMul(algF(w, 6*i), algF(w, 6*i+2))))
			}
		},
	}
}

func GBaseSum(limbs, base int) Gate {
	return Gate{ID: fmt.Sprintf("BaseSumGate { num_limbs: %d } + Base: %d", limbs, base), Name: "BaseSum", Wires: 1 + limbs, Num: 1 + limbs, Degree: base,
		Eval: func(k, w []E, _ [4]F) []E {
			acc := E{}
			for i := limbs - 1; i >= 0; i-- {
				acc = EAdd(EMul(acc, E{F(base)}), w[1+i])
			}
			o := []E{ESub(acc, w[0])}
			for i := 0; i < limbs; i++ {
				p := E{1, 0}
				for j := 0; j < base; j++ {
					p = EMul(p, ESub(w[1+i], E{F(j)}))
				}
				o = append(o, p)
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			acc := F(0)
			for i := limbs - 1; i >= 0; i-- {
				w[1+i] %= F(base)
				acc = Add(Mul(acc, F(base)), w[1+i])
			}
			w[0] = acc
		},
	}
}

func GExponentiation(n int) Gate {
	return Gate{ID: fmt.Sprintf("ExponentiationGate { num_power_bits: %d, _phantom: %s }<D=2>", n, phantom), Name: "Exponentiation", Wires: 2 + 2*n, Num: n + 1, Degree: 4,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			for i := 0; i < n; i++ {
				prev := E{1, 0}
				if i > 0 {
					prev = EMul(w[2+n+i-1], w[2+n+i-1])
				}
				b := w[1+(n-1-i)]
				// base^b for b a bit: b*base + (1-b)
				f := EAdd(EMul(b, w[0]), ESub(E{1, 0}, b))
				o = append(o, ESub(EMul(prev, f), w[2+n+i]))
			}
			return append(o, ESub(w[1+n], w[2+n+n-1]))
		},
		Fill: func(k, w []F, _ [4]F) {
			prev := F(1)
			for i := 0; i < n; i++ {
				w[1+i] &= 1
			}
			for i := 0; i < n; i++ {
				if i > 0 {
					prev = Mul(w[2+n+i-1], w[2+n+i-1])
				}
				if w[1+(n-1-i)] == 1 {
					prev = Mul(prev, w[0])
				}
				w[2+n+i] = prev
			}
			w[1+n] = w[2+n+n-1]
		},
	}
}

func GRandomAccess(bits, copies, extra int) Gate {
	vec := 1 << bits
	routed := (2+vec)*copies + extra
	return Gate{ID: fmt.Sprintf("RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d, _phantom: %s }<D=2>", bits, copies, extra, phantom), Name: "RandomAccess",
		Wires: routed + bits*copies, Consts: extra, Num: copies*(bits+2) + extra, Degree: bits + 1,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			for c := 0; c < copies; c++ {
				b := w[routed+c*bits : routed+(c+1)*bits]
				x := w[(2+vec)*c:]
				for i := range b {
					o = append(o, EMul(b[i], ESub(b[i], E{1, 0})))
				}
				idx := E{}
				for i := bits - 1; i >= 0; i-- {
					idx = EAdd(EAdd(idx, idx), b[i])
				}
				o = append(o, ESub(idx, x[0]))
				// multilinear selection
				sel := E{}
				for j := 0; j < vec; j++ {
					t := x[2+j]
					for i := 0; i < bits; i++ {
						if j>>i&1 == 1 {
							t = EMul(t, b[i])
						} else {
							t = EMul(t, ESub(E{1, 0}, b[i]))
						}
					}
					sel = EAdd(sel, t)
				}
				o = append(o, ESub(sel, x[1]))
			}
			for i := 0; i < extra; i++ {
				o = append(o, ESub(k[i], w[(2+vec)*copies+i]))
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			for c := 0; c < copies; c++ {
				x := w[(2+vec)*c:]
				x[0] %= F(vec)
				for i := 0; i < bits; i++ {
					w[routed+c*bits+i] = x[0] >> i & 1
				}
				x[1] = x[2+x[0]]
			}
			for i := 0; i < extra; i++ {
				w[(2+vec)*copies+i] = k[i]
			}
		},
	}
}

func reducing(name string, n int, cw int) Gate {
	accs := 6 + n*cw
	out := func(i int) int {
		if i == n-1 {
			return 0
		}
		return accs + 2*i
	}
	return Gate{ID: fmt.Sprintf("%s { num_coeffs: %d }", name, n), Name: strings.TrimSuffix(name, "Gate"), Wires: accs + 2*(n-1), Num: 2 * n, Degree: 2,
		Eval: func(k, w []E, _ [4]F) []E {
			var o []E
			acc := alg(w, 4)
			for i := 0; i < n; i++ {
				co := A{w[6+i*cw], E{}}
				if cw == 2 {
					co[1] = w[6+2*i+1]
				}
				c := ASub(AAdd(AMul(acc, alg(w, 2)), co), alg(w, out(i)))
				o = append(o, c[0], c[1])
				acc = alg(w, out(i))
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			acc := algF(w, 4)
			for i := 0; i < n; i++ {
				co := A{E{w[6+i*cw]}, E{}}
				if cw == 2 {
					co[1] = E{w[6+2*i+1]}
				}
				acc = AAdd(AMul(acc, algF(w, 2)), co)
				putA(w, out(i), acc)
			}
		},
	}
}

func GReducing(n int) Gate    { return reducing("ReducingGate", n, 1) }
func GReducingExt(n int) Gate { return reducing("ReducingExtensionGate", n, 2) }

func GPoseidonMds() Gate {
	return Gate{ID: "PoseidonMdsGate(" + phantom + ")<WIDTH=12>", Name: "PoseidonMds", Wires: 48, Num: 24, Degree: 1,
		Eval: func(k, w []E, _ [4]F) []E {
			var lo, hi [12]E
			for i := range lo {
				lo[i], hi[i] = w[2*i], w[2*i+1]
			}
			lo, hi = EMds(lo), EMds(hi)
			var o []E
			for i := range lo {
				o = append(o, ESub(w[24+2*i], lo[i]), ESub(w[24+2*i+1], hi[i]))
			}
			return o
		},
		Fill: func(k, w []F, _ [4]F) {
			var lo, hi [12]F
			for i := range lo {
				lo[i], hi[i] = w[2*i], w[2*i+1]
			}
			lo, hi = GLMds(lo), GLMds(hi)
			for i := range lo {
				w[24+2*i], w[24+2*i+1] = lo[i], hi[i]
			}
		},
	}
}

// GPoseidon: the S-box inputs of round r>0 of the first full rounds, of every
// partial round (first element only, with the constants of the remaining
// elements pushed through the linear layer) and of the second full rounds are
// wires.
func GPoseidon() Gate {
	g := Gate{ID: "PoseidonGate(" + phantom + ")<WIDTH=12>", Name: "Poseidon", Wires: 135, Num: 123, Degree: 7}
	g.Eval = func(k, w []E, _ [4]F) []E {
		var o []E
		sw := w[24]
		o = append(o, EMul(sw, ESub(sw, E{1, 0})))
		for i := 0; i < 4; i++ {
			o = append(o, ESub(EMul(sw, ESub(w[i+4], w[i])), w[25+i]))
		}
		var s [12]E
		for i := 0; i < 4; i++ {
			s[i] = EAdd(w[i], w[25+i])
			s[i+4] = ESub(w[i+4], w[25+i])
		}
		for i := 8; i < 12; i++ {
			s[i] = w[i]
		}
		sbox := func(x E) E { return EPow(x, 7) }
		for r := 0; r < 4; r++ {
			for i := range s {
				s[i] = EAdd(s[i], E{glRC[12*r+i] % P, 0})
			}
			if r != 0 {
				for i := range s {
					o = append(o, ESub(s[i], w[29+12*(r-1)+i]))
					s[i] = w[29+12*(r-1)+i]
				}
			}
			for i := range s {
				s[i] = sbox(s[i])
			}
			s = EMds(s)
		}
		// partial rounds, textbook form.  The S-box input of partial round r in
		// the fast form equals the textbook S-box input (the first element is
		// never rescaled), and replacing it by the wire value commutes with the
		// linear layers.
		for r := 0; r < 22; r++ {
			for i := range s {
				s[i] = EAdd(s[i], E{glRC[12*(4+r)+i] % P, 0})
			}
			o = append(o, ESub(s[0], w[65+r]))
			s[0] = sbox(w[65+r])
			s = EMds(s)
		}
		for r := 0; r < 4; r++ {
			for i := range s {
				s[i] = EAdd(s[i], E{glRC[12*(26+r)+i] % P, 0})
				o = append(o, ESub(s[i], w[87+12*r+i]))
				s[i] = sbox(w[87+12*r+i])
			}
			s = EMds(s)
		}
		for i := range s {
			o = append(o, ESub(s[i], w[12+i]))
		}
		return o
	}
	g.Fill = func(k, w []F, h [4]F) {
		w[24] &= 1
		ext := func() []E {
			x := make([]E, len(w))
			for i := range w {
				x[i] = E{w[i], 0}
			}
			return x
		}
		for i := 0; i < 4; i++ {
			w[25+i] = Mul(w[24], Sub(w[i+4], w[i]))
		}
		// solve the remaining constraints in order: each is (expr of earlier) - wire
		targets := []int{}
		for r := 1; r < 4; r++ {
			for i := 0; i < 12; i++ {
				targets = append(targets, 29+12*(r-1)+i)
			}
		}
		for r := 0; r < 22; r++ {
			targets = append(targets, 65+r)
		}
		for r := 0; r < 4; r++ {
			for i := 0; i < 12; i++ {
				targets = append(targets, 87+12*r+i)
			}
		}
		for i := 0; i < 12; i++ {
			targets = append(targets, 12+i)
		}
		// 30 rounds: re-evaluate after each block of rounds
		for n := 0; n < len(targets); {
			c := g.Eval(nil, ext(), h)
			// fix a whole run of independent constraints (same round)
			run := 1
			switch {
			case n < 36:
				run = 12
			case n >= 58:
				run = 12
			}
			for j := 0; j < run; j++ {
				w[targets[n+j]] = Add(w[targets[n+j]], c[5+n+j][0])
			}
			n += run
		}
	}
	return g
}

// BaryWeights of the subgroup of size 2^bits.
func BaryWeights(bits int) []F {
	n := 1 << bits
	g := PrimRoot(bits)
	pts := make([]F, n)
	pts[0] = 1
	for i := 1; i < n; i++ {
		pts[i] = Mul(pts[i-1], g)
	}
	ws := make([]F, n)
	for i := range ws {
		p := F(1)
		for j := range pts {
			if i != j {
				p = Mul(p, Sub(pts[i], pts[j]))
			}
		}
		ws[i] = Inv(p)
	}
	return ws
}

func GCosetInterpolation(bits, degree int) Gate {
	return GCosetInterpolationW(bits, degree, BaryWeights(bits))
}

// GCosetInterpolationW takes the weights as printed (plonky2 prints raw, possibly non-canonical 64-bit words).
func GCosetInterpolationW(bits, degree int, raw []F) Gate {
	n := 1 << bits
	inter := (n - 2) / (degree - 1)
	var sw []string
	ws := make([]F, len(raw))
	for i, x := range raw {
		sw = append(sw, fmt.Sprint(x))
		ws[i] = x % P
	}
	pts := make([]F, n)
	pts[0] = 1
	for i := 1; i < n; i++ {
		pts[i] = Mul(pts[i-1], PrimRoot(bits))
	}
	pEval := 1 + 2*n
	pVal := pEval + 2
	pIE := pVal + 2
	pIP := pIE + 2*inter
	pSh := pIP + 2*inter
	g := Gate{ID: fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], _phantom: %s }<D=2>", bits, degree, strings.Join(sw, ", "), phantom),
		Name: "CosetInterpolation", Wires: pSh + 2, Num: 2 + 4*inter + 2, Degree: degree}
	run := func(w []E, step func(i int, eval, prod A) (A, A)) A {
		z := alg(w, pSh)
		vals := func(a, b int) []A {
			var o []A
			for i := a; i < b; i++ {
				o = append(o, alg(w, 1+2*i))
			}
			return o
		}
		end := degree
		if end > n {
			end = n
		}
		ev, pr := PartialInterpolate(pts[:end], vals(0, end), ws[:end], z, A{}, A{E{1, 0}})
		for i := 0; i < inter; i++ {
			ev, pr = step(i, ev, pr)
			a := 1 + (degree-1)*(i+1)
			b := a + degree - 1
			if b > n {
				b = n
			}
			ev, pr = PartialInterpolate(pts[a:b], vals(a, b), ws[a:b], z, ev, pr)
		}
		return ev
	}
	g.Eval = func(k, w []E, _ [4]F) []E {
		var o []E
		c := ASub(alg(w, pEval), AScale(w[0], alg(w, pSh)))
		o = append(o, c[0], c[1])
		ev := run(w, func(i int, e, p A) (A, A) {
			c := ASub(alg(w, pIE+2*i), e)
			o = append(o, c[0], c[1])
			c = ASub(alg(w, pIP+2*i), p)
			o = append(o, c[0], c[1])
			return alg(w, pIE+2*i), alg(w, pIP+2*i)
		})
		c = ASub(alg(w, pVal), ev)
		return append(o, c[0], c[1])
	}
	g.Fill = func(k, w []F, _ [4]F) {
		putA(w, pEval, AScale(E{w[0]}, algF(w, pSh)))
		x := make([]E, len(w))
		for i := range w {
			x[i] = E{w[i], 0}
		}
		ev := run(x, func(i int, e, p A) (A, A) {
			putA(w, pIE+2*i, e)
			putA(w, pIP+2*i, p)
			return e, p
		})
		putA(w, pVal, ev)
	}
	return g
}
