package eng

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

var (
	P, _    = new(big.Int).SetString("18446744069414584321", 10)
	two32   = new(big.Int).Lsh(big.NewInt(1), 32)
	two64   = new(big.Int).Lsh(big.NewInt(1), 64)
	one     = big.NewInt(1)
	divisor = []*big.Int{P, two32}
)

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, modulus) }

func modDiv(a, m *big.Int) *big.Int {
	i := new(big.Int).ModInverse(m, modulus)
	return mod(new(big.Int).Mul(mod(a), i))
}

// wraps returns the multiples of the native modulus tried for wrapped solutions.
func wraps(deep bool) []*big.Int {
	var w []*big.Int
	top := int64(8)
	if deep {
		top = 40
	}
	for j := int64(1); j <= top; j++ {
		w = append(w, big.NewInt(j))
	}
	for _, s := range []uint{8, 16, 20, 32, 63, 64} {
		w = append(w, new(big.Int).Lsh(one, s))
	}
	return w
}

// MenuLevel controls the size of the attack menu.
type MenuLevel int

const (
	Small MenuLevel = iota
	Full
	Deep
)

// Menu returns the attack menu.
//
// Two-output hints are treated as (quotient, remainder) of a division by M: if
// honest outputs satisfy q*M+r = X for X an input (or a product-sum of the
// inputs), the menu contains solutions of q*M+r = X modulo the native field:
// wrapped solutions (X+jR) divmod M, shifted ones (q-k, r+kM), degenerate ones
// (0,X), (X/M,0), ones with a chosen remainder and the solved quotient; and
// answers that violate the equation.  One-output hints get arbitrary values,
// native-field inverses, and shifted honest values.  Longer hints are digit
// decompositions: every digit changed, every carry moved, the wrapped value.
func Menu(level MenuLevel) func(s *HintSite) [][]*big.Int {
	return func(s *HintSite) [][]*big.Int {
		if s.NbOut > 512 { // lookup-table multiplicities: no menu
			return nil
		}
		switch {
		case s.NbOut == 1:
			return menu1(s, level)
		case s.NbOut == 2:
			return menu2(s, level)
		default:
			return menuN(s, level)
		}
	}
}

func targets(in []*big.Int) []*big.Int {
	var t []*big.Int
	t = append(t, in...)
	if len(in) == 3 {
		x := new(big.Int).Mul(in[0], in[1])
		t = append(t, mod(x.Add(x, in[2])))
	}
	if len(in) == 2 {
		t = append(t, mod(new(big.Int).Mul(in[0], in[1])))
		t = append(t, mod(new(big.Int).Add(in[0], in[1])))
	}
	return t
}

func dedup(ms [][]*big.Int) [][]*big.Int {
	var out [][]*big.Int
	if len(ms) > 0 && len(ms[0]) <= 2 {
		seen := make(map[[2]fr.Element]struct{}, len(ms))
		for _, m := range ms {
			var k [2]fr.Element
			for i := range m {
				m[i] = mod(m[i])
				k[i].SetBigInt(m[i])
			}
			if _, ok := seen[k]; !ok {
				seen[k] = struct{}{}
				out = append(out, m)
			}
		}
		return out
	}
	seen := map[string]bool{}
	for _, m := range ms {
		var k []byte
		for i := range m {
			m[i] = mod(m[i])
			k = append(append(k, m[i].Bytes()...), ',')
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, m)
		}
	}
	return out
}

func menu1(s *HintSite, level MenuLevel) [][]*big.Int {
	var c []*big.Int
	c = append(c, big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(P, one), P, new(big.Int).Sub(two64, one), new(big.Int).Sub(modulus, one))
	for _, x := range s.In {
		c = append(c, x, new(big.Int).Neg(x), new(big.Int).Sub(P, x))
		if new(big.Int).Mod(x, modulus).Sign() != 0 {
			c = append(c, new(big.Int).ModInverse(x, modulus))
		}
	}
	if s.Honest != nil {
		h := s.Honest[0]
		c = append(c, new(big.Int).Add(h, one), new(big.Int).Sub(h, one), new(big.Int).Add(h, P), new(big.Int).Sub(h, P),
			new(big.Int).Sub(P, h), new(big.Int).Add(h, two64), new(big.Int).Lsh(h, 1), new(big.Int).Add(h, two32))
		if level >= Deep {
			for k := int64(2); k < 8; k++ {
				c = append(c, new(big.Int).Add(h, new(big.Int).Mul(big.NewInt(k), P)))
			}
		}
	}
	var out [][]*big.Int
	for _, x := range c {
		out = append(out, []*big.Int{new(big.Int).Set(x)})
	}
	return dedup(out)
}

func menu2(s *HintSite, level MenuLevel) [][]*big.Int {
	type form struct {
		M, X *big.Int
		swap bool
	}
	var forms []form
	ts := targets(s.In)
	if s.Honest != nil {
		for _, sw := range []bool{false, true} {
			q, r := s.Honest[0], s.Honest[1]
			if sw {
				q, r = r, q
			}
			for _, M := range divisor {
				x := new(big.Int).Mul(q, M)
				x = mod(x.Add(x, r))
				for _, t := range ts {
					if mod(t).Cmp(x) == 0 {
						forms = append(forms, form{M, x, sw})
						break
					}
				}
			}
			if len(forms) > 0 {
				break
			}
		}
		if len(forms) == 0 {
			for _, M := range divisor {
				for _, sw := range []bool{false, true} {
					q, r := s.Honest[0], s.Honest[1]
					if sw {
						q, r = r, q
					}
					x := new(big.Int).Mul(q, M)
					forms = append(forms, form{M, mod(x.Add(x, r)), sw})
				}
			}
		}
	} else {
		for _, M := range []*big.Int{two32, P} {
			for _, t := range ts {
				for _, sw := range []bool{false, true} {
					forms = append(forms, form{M, mod(t), sw})
				}
			}
		}
	}
	var out [][]*big.Int
	add := func(sw bool, q, r *big.Int) {
		if sw {
			q, r = r, q
		}
		out = append(out, []*big.Int{new(big.Int).Set(q), new(big.Int).Set(r)})
	}
	for _, f := range forms {
		q0, r0 := new(big.Int).DivMod(f.X, f.M, new(big.Int))
		solve := func(r *big.Int) { add(f.swap, modDiv(new(big.Int).Sub(f.X, r), f.M), r) }
		add(f.swap, q0, r0)
		ws := wraps(level >= Deep)
		if level == Small {
			ws = ws[:6]
		}
		for _, j := range ws {
			y := new(big.Int).Mul(j, modulus)
			y.Add(y, f.X)
			q, r := new(big.Int).DivMod(y, f.M, new(big.Int))
			add(f.swap, q, r)
		}
		// shifted
		for _, k := range []int64{1, 2, -1} {
			kb := big.NewInt(k)
			add(f.swap, new(big.Int).Sub(q0, kb), new(big.Int).Add(r0, new(big.Int).Mul(kb, f.M)))
		}
		// degenerate
		add(f.swap, big.NewInt(0), f.X)
		solve(big.NewInt(0))
		solve(big.NewInt(1))
		solve(new(big.Int).Add(r0, one))
		if level > Small {
			solve(new(big.Int).Sub(r0, one))
			solve(new(big.Int).Sub(P, one))
			solve(new(big.Int).Sub(two32, one))
			solve(new(big.Int).Sub(two64, one))
			solve(big.NewInt(0x1234567))
			solve(new(big.Int).Add(r0, P))
			solve(new(big.Int).Sub(P, r0))
			solve(two32)
			solve(P)
		}
		// equation violated
		add(f.swap, q0, new(big.Int).Add(r0, one))
		add(f.swap, new(big.Int).Add(q0, one), r0)
		add(f.swap, q0, new(big.Int).Add(r0, f.M))
		add(f.swap, q0, big.NewInt(0))
		add(f.swap, big.NewInt(0), big.NewInt(0))
		add(f.swap, r0, q0)
	}
	return dedup(out)
}

func menuN(s *HintSite, level MenuLevel) [][]*big.Int {
	n := s.NbOut
	var out [][]*big.Int
	zero := func() []*big.Int {
		z := make([]*big.Int, n)
		for i := range z {
			z[i] = new(big.Int)
		}
		return z
	}
	bitsOf := func(x *big.Int) []*big.Int {
		z := zero()
		for i := range z {
			z[i].SetInt64(int64(x.Bit(i)))
		}
		return z
	}
	if s.Honest == nil {
		for _, x := range s.In {
			out = append(out, bitsOf(x))
			w := zero()
			w[0].Set(x)
			out = append(out, w)
		}
		out = append(out, zero())
		return dedup(out)
	}
	h := s.Honest
	step := 1
	if level == Small && n > 16 {
		// all borders of bytes plus first and last digits
		step = 0
	}
	for i := 0; i < n; i++ {
		if step == 0 && !(i < 2 || i >= n-2 || i%8 == 0 || i%8 == 7) {
			continue
		}
		z := cp(h)
		z[i] = new(big.Int).Sub(one, h[i])
		out = append(out, z)
		if i+1 < n {
			z = cp(h)
			z[i] = new(big.Int).Add(h[i], big.NewInt(2))
			z[i+1] = new(big.Int).Sub(h[i+1], one)
			out = append(out, z)
		}
	}
	for _, x := range s.In {
		w := zero()
		w[0].Set(x)
		out = append(out, w)
		// put everything above digit k into the top digit
		w = cp(h)
		hi := new(big.Int).Rsh(x, uint(n-1))
		w[n-1] = hi
		out = append(out, w)
		for j := int64(1); j <= 4; j++ {
			y := new(big.Int).Add(x, new(big.Int).Mul(big.NewInt(j), modulus))
			if y.BitLen() <= n {
				out = append(out, bitsOf(y))
			}
			// wrapped value cut to n digits
			out = append(out, bitsOf(y))
		}
	}
	out = append(out, zero())
	return dedup(out)
}

func cp(a []*big.Int) []*big.Int {
	b := make([]*big.Int, len(a))
	for i := range a {
		b[i] = new(big.Int).Set(a[i])
	}
	return b
}
