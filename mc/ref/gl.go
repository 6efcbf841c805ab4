// Package ref is an independent reference (model) of everything the verifier
// computes: Goldilocks arithmetic, Poseidon, the challenger, gates, the
// vanishing polynomial identity, FRI and Merkle verification.  It shares no
// code with the repository.
package ref

import (
	"math/big"
	"math/bits"
)

// P is the Goldilocks modulus 2^64 - 2^32 + 1.
const P uint64 = 0xffffffff00000001

// PBig is P as a big integer.
var PBig = new(big.Int).SetUint64(P)

// F is a canonical Goldilocks element.
type F = uint64

func Add(a, b F) F {
	s, c := bits.Add64(a, b, 0)
	_, r := bits.Div64(c, s, P)
	return r
}

func Sub(a, b F) F { return Add(a, Neg(b)) }

func Neg(a F) F {
	if a == 0 {
		return 0
	}
	return P - a
}

func Mul(a, b F) F {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi%P, lo, P)
	return r
}

func Pow(a F, e uint64) F {
	r := F(1)
	for ; e != 0; e >>= 1 {
		if e&1 == 1 {
			r = Mul(r, a)
		}
		a = Mul(a, a)
	}
	return r
}

func Inv(a F) F { return Pow(a, P-2) }

// PrimRoot is the canonical primitive 2^n-th root of unity.
func PrimRoot(n int) F {
	r := F(1753635133440165772)
	for i := 0; i < 32-n; i++ {
		r = Mul(r, r)
	}
	return r
}

// ModP reduces a big integer.
func ModP(x *big.Int) F { return new(big.Int).Mod(x, PBig).Uint64() }

// E is an element of the quadratic extension F[X]/(X^2-7).
type E [2]F

func EFrom(a F) E      { return E{a, 0} }
func EAdd(a, b E) E    { return E{Add(a[0], b[0]), Add(a[1], b[1])} }
func ESub(a, b E) E    { return E{Sub(a[0], b[0]), Sub(a[1], b[1])} }
func ENeg(a E) E       { return ESub(E{}, a) }
func EIsZero(a E) bool { return a == E{} }
func EMul(a, b E) E {
	return E{
		Add(Mul(a[0], b[0]), Mul(7, Mul(a[1], b[1]))),
		Add(Mul(a[0], b[1]), Mul(a[1], b[0])),
	}
}
func EScale(a E, s F) E { return E{Mul(a[0], s), Mul(a[1], s)} }

// EInv inverts a nonzero element.
func EInv(a E) E {
	// norm = a0^2 - 7 a1^2
	n := Sub(Mul(a[0], a[0]), Mul(7, Mul(a[1], a[1])))
	return EScale(E{a[0], Neg(a[1])}, Inv(n))
}

func EDiv(a, b E) E { return EMul(a, EInv(b)) }

func EPow(a E, e uint64) E {
	r := E{1, 0}
	for ; e != 0; e >>= 1 {
		if e&1 == 1 {
			r = EMul(r, a)
		}
		a = EMul(a, a)
	}
	return r
}

// EReduceWithPowers computes sum terms[i]*s^i.
func EReduceWithPowers(terms []E, s E) E {
	acc := E{}
	pw := E{1, 0}
	for _, t := range terms {
		acc = EAdd(acc, EMul(t, pw))
		pw = EMul(pw, s)
	}
	return acc
}

// A is an element of the degree-2 algebra over E: E[Y]/(Y^2-7).
type A [2]E

func AAdd(a, b A) A { return A{EAdd(a[0], b[0]), EAdd(a[1], b[1])} }
func ASub(a, b A) A { return A{ESub(a[0], b[0]), ESub(a[1], b[1])} }
func AMul(a, b A) A {
	return A{
		EAdd(EMul(a[0], b[0]), EMul(E{7, 0}, EMul(a[1], b[1]))),
		EAdd(EMul(a[0], b[1]), EMul(a[1], b[0])),
	}
}
func AScale(s E, b A) A { return A{EMul(s, b[0]), EMul(s, b[1])} }

// PartialInterpolate is plonky2's partial barycentric interpolation.
func PartialInterpolate(domain []F, values []A, weights []F, point, eval, prod A) (A, A) {
	for i := range values {
		term := ASub(point, A{E{domain[i], 0}, E{}})
		eval = AAdd(AMul(eval, term), AMul(AScale(E{weights[i], 0}, values[i]), prod))
		prod = AMul(prod, term)
	}
	return eval, prod
}
