package ref

import (
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ---- Goldilocks Poseidon: the textbook (unoptimised) permutation ----

// GLPerm is the permutation.
func GLPerm(s [12]F) [12]F {
	for r := 0; r < 30; r++ {
		for i := range s {
			s[i] = Add(s[i], glRC[12*r+i]%P)
		}
		if r < 4 || r >= 26 {
			for i := range s {
				s[i] = Pow(s[i], 7)
			}
		} else {
			s[0] = Pow(s[0], 7)
		}
		s = GLMds(s)
	}
	return s
}

// GLMds is the MDS layer.
func GLMds(s [12]F) [12]F {
	var o [12]F
	for r := 0; r < 12; r++ {
		acc := Mul(s[r], glDiag[r])
		for i := 0; i < 12; i++ {
			acc = Add(acc, Mul(s[(i+r)%12], glCirc[i]))
		}
		o[r] = acc
	}
	return o
}

// GLHash is the no-pad overwrite sponge.
func GLHash(in []F, n int) []F {
	var s [12]F
	for i := 0; i < len(in); i += 8 {
		for j := 0; j < 8 && i+j < len(in); j++ {
			s[j] = in[i+j]
		}
		s = GLPerm(s)
	}
	var out []F
	for {
		for i := 0; i < 8; i++ {
			if len(out) == n {
				return out
			}
			out = append(out, s[i])
		}
		if len(out) == n {
			return out
		}
		s = GLPerm(s)
	}
}

// ---- BN254 Poseidon, width 4, 8 full and 56 partial rounds, x^5, with the
// round constants and the Cauchy matrix generated from the Grain LFSR ----

var (
	bnOnce sync.Once
	bnRC   []fr.Element
	bnM    [4][4]fr.Element
)

type grain struct{ st [80]byte }

func newGrain(field, sbox, n, t, rf, rp uint64) *grain {
	g := &grain{}
	k := 0
	put := func(v uint64, w int) {
		for i := w - 1; i >= 0; i-- {
			g.st[k] = byte(v >> uint(i) & 1)
			k++
		}
	}
	put(field, 2)
	put(sbox, 4)
	put(n, 12)
	put(t, 12)
	put(rf, 10)
	put(rp, 10)
	put(1<<30-1, 30)
	for i := 0; i < 160; i++ {
		g.raw()
	}
	return g
}

func (g *grain) raw() byte {
	s := &g.st
	b := s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]
	copy(s[:79], s[1:])
	s[79] = b
	return b
}

func (g *grain) bit() byte {
	for {
		a := g.raw()
		b := g.raw()
		if a == 1 {
			return b
		}
	}
}

func (g *grain) integer(n int) *big.Int {
	x := new(big.Int)
	for i := 0; i < n; i++ {
		x.Lsh(x, 1)
		if g.bit() == 1 {
			x.SetBit(x, 0, 1)
		}
	}
	return x
}

func bnInit() {
	g := newGrain(1, 0, 254, 4, 8, 56)
	for len(bnRC) < 64*4 {
		x := g.integer(254)
		if x.Cmp(fr.Modulus()) >= 0 {
			continue
		}
		var e fr.Element
		e.SetBigInt(x)
		bnRC = append(bnRC, e)
	}
	var xy [8]fr.Element
	for i := range xy {
		xy[i].SetBigInt(g.integer(254)) // reduced modulo r
	}
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			bnM[i][j].Add(&xy[i], &xy[4+j])
			bnM[i][j].Inverse(&bnM[i][j])
		}
	}
}

// BNPerm is the permutation.
func BNPerm(s [4]fr.Element) [4]fr.Element {
	bnOnce.Do(bnInit)
	for r := 0; r < 64; r++ {
		for i := range s {
			s[i].Add(&s[i], &bnRC[4*r+i])
		}
		for i := range s {
			if i == 0 || r < 4 || r >= 60 {
				var t fr.Element
				t.Square(&s[i]).Square(&t)
				s[i].Mul(&s[i], &t)
			}
		}
		var o [4]fr.Element
		for i := range o {
			for j := range s {
				var t fr.Element
				t.Mul(&bnM[i][j], &s[j])
				o[i].Add(&o[i], &t)
			}
		}
		s = o
	}
	return s
}

// Pack packs up to three Goldilocks elements little-endian.
func Pack(in []F) fr.Element {
	x := new(big.Int)
	for i := len(in) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Add(x, new(big.Int).SetUint64(in[i]))
	}
	var e fr.Element
	e.SetBigInt(x)
	return e
}

// BNHash hashes Goldilocks elements without padding (9 per permutation).
func BNHash(in []F) fr.Element {
	var s [4]fr.Element
	for i := 0; i < len(in); i += 9 {
		end := i + 9
		if end > len(in) {
			end = len(in)
		}
		ch := in[i:end]
		for j := 0; 3*j < len(ch); j++ {
			e := 3*j + 3
			if e > len(ch) {
				e = len(ch)
			}
			s[j+1] = Pack(ch[3*j : e])
		}
		s = BNPerm(s)
	}
	return s[0]
}

// BNHashOrNoop is the leaf hash.
func BNHashOrNoop(in []F) fr.Element {
	if len(in) <= 3 {
		return Pack(in)
	}
	return BNHash(in)
}

// BNHashOrNoopOff hashes a leaf whose element i is given as in[i] + off[i]*p (non-canonical encodings).
func BNHashOrNoopOff(in []F, off map[int]uint64) fr.Element {
	if len(off) == 0 {
		return BNHashOrNoop(in)
	}
	pack := func(a, b int) fr.Element {
		var r, sh, t fr.Element
		sh.SetUint64(1 << 32)
		sh.Square(&sh)
		for i := b - 1; i >= a; i-- {
			r.Mul(&r, &sh)
			t.SetUint64(in[i])
			r.Add(&r, &t)
			if k := off[i]; k != 0 {
				var pp fr.Element
				pp.SetUint64(P)
				t.SetUint64(k)
				t.Mul(&t, &pp)
				r.Add(&r, &t)
			}
		}
		return r
	}
	if len(in) <= 3 {
		return pack(0, len(in))
	}
	var s [4]fr.Element
	for i := 0; i < len(in); i += 9 {
		end := min(i+9, len(in))
		for j := 0; i+3*j < end; j++ {
			s[j+1] = pack(i+3*j, min(i+3*j+3, end))
		}
		s = BNPerm(s)
	}
	return s[0]
}

// BNTwoToOne compresses two digests.
func BNTwoToOne(l, r fr.Element) fr.Element {
	s := BNPerm([4]fr.Element{{}, {}, l, r})
	return s[0]
}

// BNToVec splits a digest into 56-bit chunks.
func BNToVec(h fr.Element) []F {
	x := new(big.Int)
	h.BigInt(x)
	mask := new(big.Int).SetUint64(1<<56 - 1)
	var out []F
	for i := 0; i < 5; i++ {
		out = append(out, new(big.Int).And(new(big.Int).Rsh(x, uint(56*i)), mask).Uint64())
	}
	return out
}

// Challenger is the duplex sponge.
type Challenger struct {
	state [12]F
	in    []F
	out   []F
}

func (c *Challenger) Observe(x ...F) {
	for _, v := range x {
		c.out = nil
		c.in = append(c.in, v)
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}
func (c *Challenger) ObserveHash(h fr.Element) { c.Observe(BNToVec(h)...) }
func (c *Challenger) ObserveCap(cap []fr.Element) {
	for _, h := range cap {
		c.ObserveHash(h)
	}
}
func (c *Challenger) ObserveE(x ...E) {
	for _, v := range x {
		c.Observe(v[0], v[1])
	}
}
func (c *Challenger) duplex() {
	copy(c.state[:], c.in)
	c.in = nil
	c.state = GLPerm(c.state)
	c.out = append([]F(nil), c.state[:8]...)
}
func (c *Challenger) Get() F {
	if len(c.in) > 0 || len(c.out) == 0 {
		c.duplex()
	}
	r := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return r
}
func (c *Challenger) GetN(n int) []F {
	o := make([]F, n)
	for i := range o {
		o[i] = c.Get()
	}
	return o
}
func (c *Challenger) GetE() E { a := c.Get(); b := c.Get(); return E{a, b} }

// Clone copies the challenger.
func (c *Challenger) Clone() *Challenger {
	n := *c
	n.in = append([]F(nil), c.in...)
	n.out = append([]F(nil), c.out...)
	return &n
}

// EPerm is the textbook permutation over the extension field.
func EPerm(s [12]E) [12]E {
	for r := 0; r < 30; r++ {
		for i := range s {
			s[i] = EAdd(s[i], E{glRC[12*r+i] % P, 0})
		}
		if r < 4 || r >= 26 {
			for i := range s {
				s[i] = EPow(s[i], 7)
			}
		} else {
			s[0] = EPow(s[0], 7)
		}
		s = EMds(s)
	}
	return s
}

// EMds is the MDS layer over the extension field.
func EMds(s [12]E) [12]E {
	var o [12]E
	for r := 0; r < 12; r++ {
		acc := EScale(s[r], glDiag[r])
		for i := 0; i < 12; i++ {
			acc = EAdd(acc, EScale(s[(i+r)%12], glCirc[i]))
		}
		o[r] = acc
	}
	return o
}
