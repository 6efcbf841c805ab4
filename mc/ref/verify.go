package ref

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Common is the circuit description.
type Common struct {
	NumWires, NumRouted, NumChallenges int
	RateBits, CapHeight, PowBits       int
	NumQueries                         int
	DegreeBits                         int
	Arity                              []int
	Gates                              []Gate
	SelIdx                             []int
	Groups                             [][2]int
	QDF, NumGateConstraints            int
	NumConstants, NumPI, NumPartial    int // NumConstants counts selector columns too
	KIs                                []F
}

// VK is the verifier-only data.
type VK struct {
	Cap    []fr.Element
	Digest fr.Element
}

// Openings at zeta (and zeta*g for ZsNext).
type Openings struct {
	Constants, Sigmas, Wires, Zs, ZsNext, Partials, Quotients []E
}

// Leaf is one opened leaf with its path.
type Leaf struct {
	Elems []F
	Path  []fr.Element
}

// Step is a folding layer opening.
type Step struct {
	Evals []E
	Path  []fr.Element
}

// Round is a query round.
type Round struct {
	Leaves []Leaf // constants+sigmas, wires, zs+partials, quotients
	Steps  []Step
}

// Proof of the protocol.
type Proof struct {
	WiresCap, ZsCap, QuotientCap []fr.Element
	Open                         Openings
	CommitCaps                   [][]fr.Element
	Rounds                       []Round
	FinalPoly                    []E
	Pow                          F
	PI                           []F // may be non-canonical; reduced before use
	Off                          *Offsets
	VKCap                        []fr.Element // cap of a deviating constants tree, when Off touches it
}

// Offsets describes a proof whose leaf elements are committed to and opened as
// v + k*p instead of v.
type Offsets struct {
	Leaf [4]map[int]uint64 // tree, column
	Step []map[int]uint64  // layer, coefficient in the coset
}

func (o *Offsets) leaf(t int) map[int]uint64 {
	if o == nil {
		return nil
	}
	return o.Leaf[t]
}

func (o *Offsets) step(i int) map[int]uint64 {
	if o == nil || i >= len(o.Step) {
		return nil
	}
	return o.Step[i]
}

// Challenges of the transcript.
type Challenges struct {
	Betas, Gammas, Alphas []F
	Zeta, FriAlpha        E
	FriBetas              []E
	PowResp               F
	Queries               []F
}

func (o *Openings) Batch0() []E {
	var b []E
	for _, s := range [][]E{o.Constants, o.Sigmas, o.Wires, o.Zs, o.Partials, o.Quotients} {
		b = append(b, s...)
	}
	return b
}

// PIHash hashes the public inputs.
func PIHash(pi []F) [4]F {
	r := make([]F, len(pi))
	for i := range pi {
		r[i] = pi[i] % P
	}
	h := GLHash(r, 4)
	return [4]F{h[0], h[1], h[2], h[3]}
}

// Transcript derives the challenges.
func (c *Common) Transcript(vk *VK, p *Proof, pih [4]F) Challenges {
	var ch Challenges
	t := &Challenger{}
	t.ObserveHash(vk.Digest)
	t.Observe(pih[:]...)
	t.ObserveCap(p.WiresCap)
	ch.Betas = t.GetN(c.NumChallenges)
	ch.Gammas = t.GetN(c.NumChallenges)
	t.ObserveCap(p.ZsCap)
	ch.Alphas = t.GetN(c.NumChallenges)
	t.ObserveCap(p.QuotientCap)
	ch.Zeta = t.GetE()
	t.ObserveE(p.Open.Batch0()...)
	t.ObserveE(p.Open.ZsNext...)
	ch.FriAlpha = t.GetE()
	for _, cap := range p.CommitCaps {
		t.ObserveCap(cap)
		ch.FriBetas = append(ch.FriBetas, t.GetE())
	}
	t.ObserveE(p.FinalPoly...)
	t.Observe(p.Pow)
	ch.PowResp = t.Get()
	ch.Queries = t.GetN(c.NumQueries)
	return ch
}

// GateConstraints combines the filtered constraints of all gates.
func (c *Common) GateConstraints(consts, wires []E, pih [4]F) []E {
	out := make([]E, c.NumGateConstraints)
	ns := len(c.Groups)
	for row, g := range c.Gates {
		s := consts[c.SelIdx[row]]
		grp := c.Groups[c.SelIdx[row]]
		f := E{1, 0}
		for i := grp[0]; i < grp[1]; i++ {
			if i != row {
				f = EMul(f, ESub(E{F(i), 0}, s))
			}
		}
		if ns > 1 {
			f = EMul(f, ESub(E{0xffffffff, 0}, s))
		}
		for i, x := range g.Eval(consts[ns:], wires, pih) {
			out[i] = EAdd(out[i], EMul(x, f))
		}
	}
	return out
}

// VanishingTerms in protocol order.
func (c *Common) VanishingTerms(ch *Challenges, o *Openings, pih [4]F, x E) []E {
	n := uint64(1) << c.DegreeBits
	xn := EPow(x, n)
	l0 := EDiv(ESub(xn, E{1, 0}), EScale(ESub(x, E{1, 0}), F(n)%P))
	var z1, pp []E
	for i := 0; i < c.NumChallenges; i++ {
		z1 = append(z1, EMul(l0, ESub(o.Zs[i], E{1, 0})))
		accs := append([]E{o.Zs[i]}, o.Partials[i*c.NumPartial:(i+1)*c.NumPartial]...)
		accs = append(accs, o.ZsNext[i])
		for k := 0; k <= c.NumPartial; k++ {
			nu, de := E{1, 0}, E{1, 0}
			for j := k * c.QDF; j < (k+1)*c.QDF && j < c.NumRouted; j++ {
				wg := EAdd(o.Wires[j], EFrom(ch.Gammas[i]))
				nu = EMul(nu, EAdd(EScale(EScale(x, c.KIs[j]), ch.Betas[i]), wg))
				de = EMul(de, EAdd(EScale(o.Sigmas[j], ch.Betas[i]), wg))
			}
			pp = append(pp, ESub(EMul(accs[k], nu), EMul(accs[k+1], de)))
		}
	}
	return append(append(z1, pp...), c.GateConstraints(o.Constants, o.Wires, pih)...)
}

// PlonkSides returns both sides of the identity for each challenge round.
func (c *Common) PlonkSides(ch *Challenges, o *Openings, pih [4]F) (lhs, rhs []E) {
	terms := c.VanishingTerms(ch, o, pih, ch.Zeta)
	zn := EPow(ch.Zeta, uint64(1)<<c.DegreeBits)
	for i := 0; i < c.NumChallenges; i++ {
		lhs = append(lhs, EReduceWithPowers(terms, EFrom(ch.Alphas[i])))
		q := EReduceWithPowers(o.Quotients[i*c.QDF:(i+1)*c.QDF], zn)
		rhs = append(rhs, EMul(ESub(zn, E{1, 0}), q))
	}
	return
}

func rev(x uint64, n int) uint64 {
	var r uint64
	for i := 0; i < n; i++ {
		r = r<<1 | x>>i&1
	}
	return r
}

// Rev reverses n bits.
func Rev(x uint64, n int) uint64 { return rev(x, n) }

// CombineInitial is the value of the FRI starting codeword at x implied by the leaves.
func (c *Common) CombineInitial(ch *Challenges, o *Openings, leaves []Leaf, x F) E {
	var b0, b1 []E
	for _, l := range leaves {
		for _, e := range l.Elems {
			b0 = append(b0, EFrom(e))
		}
	}
	for i := 0; i < c.NumChallenges; i++ {
		b1 = append(b1, EFrom(leaves[2].Elems[i]))
	}
	g := PrimRoot(c.DegreeBits)
	sum := E{}
	for i, b := range [][]E{b0, b1} {
		pt := ch.Zeta
		op := o.Batch0()
		if i == 1 {
			pt = EScale(pt, g)
			op = o.ZsNext
		}
		num := ESub(EReduceWithPowers(b, ch.FriAlpha), EReduceWithPowers(op, ch.FriAlpha))
		sum = EAdd(EMul(EPow(ch.FriAlpha, uint64(len(b))), sum), EDiv(num, ESub(EFrom(x), pt)))
	}
	return sum
}

// FoldEval interpolates the coset containing x (position within) at beta.
func FoldEval(x F, within uint64, bits int, evals []E, beta E) E {
	n := 1 << bits
	g := PrimRoot(bits)
	// evals[rev(j)] is the value at start*g^j
	start := Mul(x, Inv(Pow(g, rev(within, bits))))
	pts := make([]F, n)
	pts[0] = start
	for i := 1; i < n; i++ {
		pts[i] = Mul(pts[i-1], g)
	}
	sum := E{}
	for i := range pts {
		t := evals[rev(uint64(i), bits)]
		for j := range pts {
			if i != j {
				t = EMul(t, ESub(beta, EFrom(pts[j])))
				t = EScale(t, Inv(Sub(pts[i], pts[j])))
			}
		}
		sum = EAdd(sum, t)
	}
	return sum
}

// MerkleRoot walks a path.
func MerkleRoot(leaf []F, off map[int]uint64, idx uint64, path []fr.Element) (fr.Element, uint64) {
	d := BNHashOrNoopOff(leaf, off)
	for _, s := range path {
		if idx&1 == 1 {
			d = BNTwoToOne(s, d)
		} else {
			d = BNTwoToOne(d, s)
		}
		idx >>= 1
	}
	return d, idx
}

func flat(e []E) []F {
	var o []F
	for _, x := range e {
		o = append(o, x[0], x[1])
	}
	return o
}

func evalPoly(c []E, x E) E {
	acc := E{}
	for i := len(c) - 1; i >= 0; i-- {
		acc = EAdd(EMul(acc, x), c[i])
	}
	return acc
}

// VerifyFri checks a FRI proof under given challenges.
func (c *Common) VerifyFri(ch *Challenges, o *Openings, caps [][]fr.Element, p *Proof) error {
	if c.PowBits > 0 && ch.PowResp>>(64-uint(c.PowBits)) != 0 {
		return fmt.Errorf("proof of work")
	}
	n := c.DegreeBits + c.RateBits
	for q, xf := range ch.Queries {
		idx := xf & (1<<n - 1)
		rd := p.Rounds[q]
		for i, l := range rd.Leaves {
			root, ci := MerkleRoot(l.Elems, p.Off.leaf(i), idx, l.Path)
			if root != caps[i][ci] {
				return fmt.Errorf("query %d: initial tree %d", q, i)
			}
		}
		x := Mul(7, Pow(PrimRoot(n), rev(idx, n)))
		old := c.CombineInitial(ch, o, rd.Leaves, x)
		for i, a := range c.Arity {
			st := rd.Steps[i]
			within := idx & (1<<a - 1)
			if st.Evals[within] != old {
				return fmt.Errorf("query %d: layer %d does not contain the previous value", q, i)
			}
			old = FoldEval(x, within, a, st.Evals, ch.FriBetas[i])
			idx >>= a
			root, ci := MerkleRoot(flat(st.Evals), p.Off.step(i), idx, st.Path)
			if root != p.CommitCaps[i][ci] {
				return fmt.Errorf("query %d: layer %d tree", q, i)
			}
			x = Pow(x, 1<<a)
		}
		if evalPoly(p.FinalPoly, EFrom(x)) != old {
			return fmt.Errorf("query %d: final polynomial", q)
		}
	}
	return nil
}

// Canonical reports whether all proof elements are canonical.
func (p *Proof) Canonical() error {
	bad := false
	ce := func(es []E) {
		for _, e := range es {
			if e[0] >= P || e[1] >= P {
				bad = true
			}
		}
	}
	for _, s := range [][]E{p.Open.Constants, p.Open.Sigmas, p.Open.Wires, p.Open.Zs, p.Open.ZsNext, p.Open.Partials, p.Open.Quotients, p.FinalPoly} {
		ce(s)
	}
	for _, r := range p.Rounds {
		for _, l := range r.Leaves {
			for _, x := range l.Elems {
				if x >= P {
					bad = true
				}
			}
		}
		for _, s := range r.Steps {
			ce(s.Evals)
		}
	}
	if p.Pow >= P {
		bad = true
	}
	if bad {
		return fmt.Errorf("non-canonical element")
	}
	return nil
}

// Verify is the whole verification algorithm.
func (c *Common) Verify(vk *VK, p *Proof) error {
	if err := p.Canonical(); err != nil {
		return err
	}
	return c.VerifyLax(vk, p)
}

// VerifyLax omits the canonicity requirement.
func (c *Common) VerifyLax(vk *VK, p *Proof) error {
	pih := PIHash(p.PI)
	ch := c.Transcript(vk, p, pih)
	l, r := c.PlonkSides(&ch, &p.Open, pih)
	for i := range l {
		if l[i] != r[i] {
			return fmt.Errorf("vanishing identity %d", i)
		}
	}
	return c.VerifyFri(&ch, &p.Open, [][]fr.Element{vk.Cap, p.WiresCap, p.ZsCap, p.QuotientCap}, p)
}
