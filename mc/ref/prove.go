package ref

import (
	"fmt"
	"slices"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// This file is a small honest prover for the protocol (and, through hooks, a
// family of dishonest ones).  It produces valid proofs for arbitrary circuit
// descriptions, so that the verifier circuit can be explored in many
// configurations instead of the two recorded ones.

type sm uint64

func (r *sm) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *sm) f() F { return r.next() % P }

// Fft evaluates coefficients on <w> (len a power of two).
func Fft(a []F, w F) []F {
	n := len(a)
	if n == 1 {
		return []F{a[0]}
	}
	ev, od := make([]F, n/2), make([]F, n/2)
	for i := 0; i < n/2; i++ {
		ev[i], od[i] = a[2*i], a[2*i+1]
	}
	w2 := Mul(w, w)
	ev, od = Fft(ev, w2), Fft(od, w2)
	out := make([]F, n)
	t := F(1)
	for i := 0; i < n/2; i++ {
		x := Mul(t, od[i])
		out[i], out[i+n/2] = Add(ev[i], x), Sub(ev[i], x)
		t = Mul(t, w)
	}
	return out
}

// Ifft interpolates values on <w>.
func Ifft(v []F, w F) []F {
	o := Fft(v, Inv(w))
	ni := Inv(F(len(v)))
	for i := range o {
		o[i] = Mul(o[i], ni)
	}
	return o
}

func log2(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

// cosetEval evaluates coefficients on shift*<w_size>.
func cosetEval(c []F, shift F, size int) []F {
	a := make([]F, size)
	s := F(1)
	for i := range c {
		if i < size {
			a[i] = Mul(c[i], s)
		} else if c[i] != 0 {
			panic("degree too large")
		}
		s = Mul(s, shift)
	}
	return Fft(a, PrimRoot(log2(size)))
}

// Tree is a Merkle tree with a cap.
type Tree struct {
	Leaves [][]F
	Levels [][]fr.Element // level 0: leaf digests ... last: cap
}

// NewTree builds a tree.
func NewTree(leaves [][]F, capHeight int) *Tree { return NewTreeOff(leaves, nil, capHeight) }

// NewTreeOff commits to leaves given non-canonically.
func NewTreeOff(leaves [][]F, off map[int]uint64, capHeight int) *Tree {
	t := &Tree{Leaves: leaves}
	lv := make([]fr.Element, len(leaves))
	spread(len(leaves), func(i int) { lv[i] = BNHashOrNoopOff(leaves[i], off) })
	t.Levels = append(t.Levels, lv)
	for len(lv) > 1<<capHeight {
		nx, up := make([]fr.Element, len(lv)/2), lv
		spread(len(nx), func(i int) { nx[i] = BNTwoToOne(up[2*i], up[2*i+1]) })
		t.Levels = append(t.Levels, nx)
		lv = nx
	}
	return t
}

// spread runs f(0..n-1), on several cores when it is worth it.
func spread(n int, f func(i int)) {
	if n < 1<<11 {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	var wg sync.WaitGroup
	const parts = 16
	for p := 0; p < parts; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for i := p * n / parts; i < (p+1)*n/parts; i++ {
				f(i)
			}
		}(p)
	}
	wg.Wait()
}

// update is the tree of the leaves, computed from t by rehashing the leaves that
// differ.
func (t *Tree) update(leaves [][]F, changed []int, capHeight int) *Tree {
	if len(changed)*len(t.Levels) > len(leaves) {
		return NewTree(leaves, capHeight)
	}
	n := &Tree{Leaves: leaves}
	for _, l := range t.Levels {
		n.Levels = append(n.Levels, append([]fr.Element(nil), l...))
	}
	for _, i := range changed {
		n.Levels[0][i] = BNHashOrNoop(leaves[i])
	}
	for l := 1; l < len(n.Levels); l++ {
		last := -1
		for _, i := range changed {
			if k := i >> l; k != last {
				n.Levels[l][k] = BNTwoToOne(n.Levels[l-1][2*k], n.Levels[l-1][2*k+1])
				last = k
			}
		}
	}
	return n
}

func (t *Tree) Cap() []fr.Element { return t.Levels[len(t.Levels)-1] }

// Path of a leaf.
func (t *Tree) Path(i uint64) []fr.Element {
	var p []fr.Element
	for l := 0; l < len(t.Levels)-1; l++ {
		p = append(p, t.Levels[l][i^1])
		i >>= 1
	}
	return p
}

// Circuit is a satisfied circuit instance.
type Circuit struct {
	C      *Common
	Consts [][]F // columns (selectors first)
	Sigmas [][]F
	Wires  [][]F
	PI     []F
	Rows   []int // gate per row
	vkTree *Tree
	polys  [][]F // constants+sigmas coefficients
	vk     *VK
}

// NewCommon fills in the derived fields.
func NewCommon(gates []Gate, groups []int, degreeBits, rateBits, powBits, queries, nch, routed, qdf, nPI int, arity []int) *Common {
	c := &Common{NumRouted: routed, NumChallenges: nch, RateBits: rateBits, CapHeight: 4, PowBits: powBits, NumQueries: queries, DegreeBits: degreeBits,
		Arity: arity, Gates: gates, QDF: qdf, NumPI: nPI}
	at := 0
	for gi, sz := range groups {
		c.Groups = append(c.Groups, [2]int{at, at + sz})
		for i := 0; i < sz; i++ {
			c.SelIdx = append(c.SelIdx, gi)
		}
		at += sz
	}
	if at != len(gates) {
		panic("groups")
	}
	nk := 0
	c.NumWires = routed
	for i, g := range gates {
		if g.Consts > nk {
			nk = g.Consts
		}
		if g.Wires > c.NumWires {
			c.NumWires = g.Wires
		}
		if g.Num > c.NumGateConstraints {
			c.NumGateConstraints = g.Num
		}
		grp := c.Groups[c.SelIdx[i]]
		fd := grp[1] - grp[0] - 1
		if len(groups) > 1 {
			fd++
		}
		if g.Num > 0 && g.Degree+fd > qdf+1 {
			panic(fmt.Sprintf("gate %s: degree %d + filter %d too large for %d", g.Name, g.Degree, fd, qdf))
		}
	}
	c.NumConstants = len(groups) + nk
	c.NumPartial = (routed+qdf-1)/qdf - 1
	k := F(1)
	for i := 0; i < routed; i++ {
		c.KIs = append(c.KIs, k)
		k = Mul(k, 7)
	}
	return c
}

// NewCircuit makes a satisfied instance with copy constraints.
func NewCircuit(c *Common, seed uint64) *Circuit {
	r := sm(seed*7919 + 1)
	n := 1 << c.DegreeBits
	ci := &Circuit{C: c}
	col := func(k int) [][]F {
		o := make([][]F, k)
		for i := range o {
			o[i] = make([]F, n)
		}
		return o
	}
	ci.Consts, ci.Sigmas, ci.Wires = col(c.NumConstants), col(c.NumRouted), col(c.NumWires)
	for i := 0; i < c.NumPI; i++ {
		ci.PI = append(ci.PI, r.f())
	}
	pih := PIHash(ci.PI)
	g := PrimRoot(c.DegreeBits)
	noop := -1
	for i, x := range c.Gates {
		if x.Name == "Noop" {
			noop = i
		}
	}
	ci.Rows = make([]int, n)
	for row := 0; row < n; row++ {
		gi := row % len(c.Gates)
		if row >= len(c.Gates) && noop >= 0 && row%2 == 1 {
			gi = noop
		}
		ci.Rows[row] = gi
		for s := range c.Groups {
			switch {
			case c.SelIdx[gi] == s:
				ci.Consts[s][row] = F(gi)
			default:
				ci.Consts[s][row] = 0xffffffff
			}
		}
		var k []F
		for j := len(c.Groups); j < c.NumConstants; j++ {
			ci.Consts[j][row] = r.f()
			k = append(k, ci.Consts[j][row])
		}
		w := make([]F, c.NumWires)
		for j := range w {
			w[j] = r.f()
		}
		if f := c.Gates[gi].Fill; f != nil {
			f(k, w, pih)
		}
		for j := range w {
			ci.Wires[j][row] = w[j]
		}
	}
	// identity permutation, then cycles through free (noop) positions
	type pos struct{ c, r int }
	sig := map[pos]pos{}
	for j := 0; j < c.NumRouted; j++ {
		for row := 0; row < n; row++ {
			sig[pos{j, row}] = pos{j, row}
		}
	}
	for row := 0; row < n; row++ {
		if ci.Rows[row] != noop {
			continue
		}
		for j := 0; j < c.NumRouted; j++ {
			if r.next()%2 == 0 {
				continue
			}
			b := pos{j, row}
			if sig[b] != b {
				continue // already part of a cycle
			}
			a := pos{int(r.next() % uint64(c.NumRouted)), int(r.next() % uint64(n))}
			if a == b {
				continue
			}
			ci.Wires[b.c][b.r] = ci.Wires[a.c][a.r]
			sig[a], sig[b] = sig[b], sig[a]
		}
	}
	// a copied-to position may have been the source of an earlier copy: settle values along cycles
	seen := map[pos]bool{}
	for j := 0; j < c.NumRouted; j++ {
		for row := 0; row < n; row++ {
			p := pos{j, row}
			if seen[p] {
				continue
			}
			var cyc []pos
			var val F
			have := false
			for q := p; !seen[q]; q = sig[q] {
				seen[q] = true
				cyc = append(cyc, q)
				if ci.Rows[q.r] != noop {
					if have && val != ci.Wires[q.c][q.r] {
						panic("two gate positions in one cycle")
					}
					val, have = ci.Wires[q.c][q.r], true
				}
			}
			if !have {
				val = ci.Wires[p.c][p.r]
			}
			for _, q := range cyc {
				ci.Wires[q.c][q.r] = val
			}
		}
	}
	for j := 0; j < c.NumRouted; j++ {
		for row := 0; row < n; row++ {
			t := sig[pos{j, row}]
			ci.Sigmas[j][row] = Mul(c.KIs[t.c], Pow(g, uint64(t.r)))
		}
	}
	for _, cl := range append(append([][]F{}, ci.Consts...), ci.Sigmas...) {
		ci.polys = append(ci.polys, Ifft(cl, g))
	}
	ci.vkTree = c.commitPolys(ci.polys, nil)
	var d fr.Element
	d.SetUint64(r.next())
	d.Square(&d).Square(&d)
	ci.vk = &VK{Cap: ci.vkTree.Cap(), Digest: d}
	return ci
}

// VK of the circuit.
func (ci *Circuit) VK() *VK { return ci.vk }

func (c *Common) commitPolys(ps [][]F, off map[int]uint64) *Tree {
	nl := c.DegreeBits + c.RateBits
	N := 1 << nl
	lde := make([][]F, len(ps))
	for i := range ps {
		lde[i] = cosetEval(ps[i], 7, N)
	}
	leaves := make([][]F, N)
	for i := range leaves {
		j := rev(uint64(i), nl)
		leaves[i] = make([]F, len(ps))
		for k := range ps {
			leaves[i][k] = lde[k][j]
		}
	}
	return NewTreeOff(leaves, off, c.CapHeight)
}

func evalF(c []F, x E) E {
	acc := E{}
	for i := len(c) - 1; i >= 0; i-- {
		acc = EAdd(EMul(acc, x), EFrom(c[i]))
	}
	return acc
}

// Hooks let a dishonest prover deviate at each step (all optional).
type Hooks struct {
	Wires    func(cols [][]F)                  // values before commitment
	Zs       func(cols [][]F)                  // zs and partial products values
	Quotient func(coeffs [][]F)                // quotient chunk coefficients
	Openings func(o *Openings, ch *Challenges) // claimed openings before they are observed
	Codeword func(layer int, v []E)            // codeword of a layer before commitment (layer 0 = combined)
	Final    func(coeffs []E)
	PowBad   bool                      // choose a witness whose response violates the difficulty
	PowPick  func(ch *Challenges) bool // additional condition on the queries
	Round    func(q int, r *Round, ch *Challenges)
	Data     func(d *FriData) // receives everything the openings are taken from
	Off      *Offsets         // commit to and open non-canonical encodings
}

// Prove makes a proof.
func (ci *Circuit) Prove(h Hooks) *Proof {
	c := ci.C
	n := 1 << c.DegreeBits
	g := PrimRoot(c.DegreeBits)
	p := &Proof{PI: ci.PI, Off: h.Off}
	pih := PIHash(ci.PI)
	wires := make([][]F, len(ci.Wires))
	for i := range wires {
		wires[i] = append([]F(nil), ci.Wires[i]...)
	}
	if h.Wires != nil {
		h.Wires(wires)
	}
	var wp [][]F
	for _, w := range wires {
		wp = append(wp, Ifft(w, g))
	}
	vkTree := ci.vkTree
	if o := h.Off.leaf(0); o != nil {
		vkTree = c.commitPolys(ci.polys, o) // a dishonest key; its cap is returned through VKCap
		p.VKCap = vkTree.Cap()
	}
	wt := c.commitPolys(wp, h.Off.leaf(1))
	p.WiresCap = wt.Cap()
	t := &Challenger{}
	t.ObserveHash(ci.vk.Digest)
	t.Observe(pih[:]...)
	t.ObserveCap(p.WiresCap)
	var ch Challenges
	ch.Betas = t.GetN(c.NumChallenges)
	ch.Gammas = t.GetN(c.NumChallenges)
	// permutation polynomials
	zs := make([][]F, c.NumChallenges)
	pps := make([][]F, c.NumChallenges*c.NumPartial)
	for i := range zs {
		zs[i] = make([]F, n)
		for k := 0; k < c.NumPartial; k++ {
			pps[i*c.NumPartial+k] = make([]F, n)
		}
		acc := F(1)
		x := F(1)
		for row := 0; row < n; row++ {
			zs[i][row] = acc
			for k := 0; k <= c.NumPartial; k++ {
				nu, de := F(1), F(1)
				for j := k * c.QDF; j < (k+1)*c.QDF && j < c.NumRouted; j++ {
					wg := Add(wires[j][row], ch.Gammas[i])
					nu = Mul(nu, Add(Mul(ch.Betas[i], Mul(c.KIs[j], x)), wg))
					de = Mul(de, Add(Mul(ch.Betas[i], ci.Sigmas[j][row]), wg))
				}
				acc = Mul(acc, Mul(nu, Inv(de)))
				if k < c.NumPartial {
					pps[i*c.NumPartial+k][row] = acc
				}
			}
			x = Mul(x, g)
		}
		if acc != 1 && h.Wires == nil {
			panic("permutation argument does not close")
		}
	}
	zpv := append(append([][]F{}, zs...), pps...)
	if h.Zs != nil {
		h.Zs(zpv)
	}
	var zp [][]F
	for _, z := range zpv {
		zp = append(zp, Ifft(z, g))
	}
	zt := c.commitPolys(zp, h.Off.leaf(2))
	p.ZsCap = zt.Cap()
	t.ObserveCap(p.ZsCap)
	ch.Alphas = t.GetN(c.NumChallenges)
	// quotient
	M := 1 << log2(c.QDF) * n
	ev := func(ps [][]F) [][]F {
		o := make([][]F, len(ps))
		for i := range ps {
			o[i] = cosetEval(ps[i], 7, M)
		}
		return o
	}
	cs, wv, zv := ev(ci.polys), ev(wp), ev(zp)
	wM := PrimRoot(log2(M))
	qv := make([][]F, c.NumChallenges)
	for i := range qv {
		qv[i] = make([]F, M)
	}
	x := F(7)
	pick := func(cols [][]F, i int) []E {
		o := make([]E, len(cols))
		for k := range cols {
			o[k] = EFrom(cols[k][i])
		}
		return o
	}
	for i := 0; i < M; i++ {
		a := pick(cs, i)
		z := pick(zv, i)
		zn := pick(zv, (i+M/n)%M)
		o := Openings{Constants: a[:c.NumConstants], Sigmas: a[c.NumConstants:], Wires: pick(wv, i), Zs: z[:c.NumChallenges], Partials: z[c.NumChallenges:], ZsNext: zn[:c.NumChallenges]}
		terms := c.VanishingTerms(&ch, &o, pih, EFrom(x))
		zh := Inv(Sub(Pow(x, uint64(n)), 1))
		for k := range qv {
			v := EReduceWithPowers(terms, EFrom(ch.Alphas[k]))
			qv[k][i] = Mul(v[0], zh)
		}
		x = Mul(x, wM)
	}
	var qp [][]F
	for k := range qv {
		co := Ifft(qv[k], wM)
		s, si := F(1), Inv(7)
		for i := range co {
			co[i] = Mul(co[i], s)
			s = Mul(s, si)
		}
		for i := c.QDF * n; i < M; i++ {
			if co[i] != 0 && h.Wires == nil && h.Zs == nil {
				panic("quotient degree too large")
			}
		}
		for j := 0; j < c.QDF; j++ {
			qp = append(qp, co[j*n:(j+1)*n])
		}
	}
	if h.Quotient != nil {
		h.Quotient(qp)
	}
	qt := c.commitPolys(qp, h.Off.leaf(3))
	p.QuotientCap = qt.Cap()
	t.ObserveCap(p.QuotientCap)
	ch.Zeta = t.GetE()
	at := func(ps [][]F, z E) []E {
		o := make([]E, len(ps))
		for i := range ps {
			o[i] = evalF(ps[i], z)
		}
		return o
	}
	a := at(ci.polys, ch.Zeta)
	z := at(zp, ch.Zeta)
	zg := EScale(ch.Zeta, g)
	p.Open = Openings{Constants: a[:c.NumConstants], Sigmas: a[c.NumConstants:], Wires: at(wp, ch.Zeta), Zs: z[:c.NumChallenges], Partials: z[c.NumChallenges:],
		ZsNext: at(zp[:c.NumChallenges], zg), Quotients: at(qp, ch.Zeta)}
	if h.Openings != nil {
		h.Openings(&p.Open, &ch)
	}
	t.ObserveE(p.Open.Batch0()...)
	t.ObserveE(p.Open.ZsNext...)
	ch.FriAlpha = t.GetE()
	// combined polynomial
	trees := []*Tree{vkTree, wt, zt, qt}
	all := append(append(append(append([][]F{}, ci.polys...), wp...), zp...), qp...)
	comb := make([]E, n)
	for bi, b := range [][][]F{all, zp[:c.NumChallenges]} {
		pt := ch.Zeta
		if bi == 1 {
			pt = zg
		}
		f := make([]E, n)
		pw := E{1, 0}
		for _, q := range b {
			for i := range q {
				f[i] = EAdd(f[i], EScale(pw, q[i]))
			}
			pw = EMul(pw, ch.FriAlpha)
		}
		// divide by X - pt (dropping the remainder)
		quo := make([]E, n)
		acc := E{}
		for i := n - 1; i > 0; i-- {
			acc = EAdd(f[i], EMul(acc, pt))
			quo[i-1] = acc
		}
		for i := range comb {
			comb[i] = EAdd(EMul(comb[i], pw), quo[i])
		}
	}
	// folding
	nl := c.DegreeBits + c.RateBits
	shift := F(7)
	coeffs := comb
	var layers []*Tree
	var layerVals [][]E
	for li, ar := range c.Arity {
		N := 1 << nl
		v0, v1 := make([]F, len(coeffs)), make([]F, len(coeffs))
		for i := range coeffs {
			v0[i], v1[i] = coeffs[i][0], coeffs[i][1]
		}
		e0, e1 := cosetEval(v0, shift, N), cosetEval(v1, shift, N)
		vals := make([]E, N)
		for i := range vals {
			j := rev(uint64(i), nl)
			vals[i] = E{e0[j], e1[j]}
		}
		if h.Codeword != nil {
			h.Codeword(li, vals)
		}
		layerVals = append(layerVals, vals)
		leaves := make([][]F, N>>ar)
		for i := range leaves {
			leaves[i] = flat(vals[i<<ar : (i+1)<<ar])
		}
		tr := NewTreeOff(leaves, h.Off.step(li), c.CapHeight)
		layers = append(layers, tr)
		p.CommitCaps = append(p.CommitCaps, tr.Cap())
		t.ObserveCap(tr.Cap())
		beta := t.GetE()
		ch.FriBetas = append(ch.FriBetas, beta)
		nx := make([]E, len(coeffs)>>ar)
		for i := range nx {
			nx[i] = EReduceWithPowers(coeffs[i<<ar:(i+1)<<ar], beta)
		}
		coeffs = nx
		shift = Pow(shift, 1<<ar)
		nl -= ar
	}
	p.FinalPoly = append([]E(nil), coeffs...)
	if h.Final != nil {
		h.Final(p.FinalPoly)
	}
	t.ObserveE(p.FinalPoly...)
	for w := F(0); ; w++ {
		tt := t.Clone()
		tt.Observe(w)
		resp := tt.Get()
		ok := c.PowBits == 0 || resp>>(64-uint(c.PowBits)) == 0
		if ok == h.PowBad {
			continue
		}
		ch.PowResp = resp
		ch.Queries = tt.GetN(c.NumQueries)
		if h.PowPick != nil && !h.PowPick(&ch) {
			continue
		}
		p.Pow = w
		break
	}
	nl = c.DegreeBits + c.RateBits
	if h.Data != nil {
		d := &FriData{Ch: ch, Final: p.FinalPoly, Layers: layerVals, C: c}
		for _, tr := range trees {
			d.Leaves = append(d.Leaves, tr.Leaves)
		}
		h.Data(d)
	}
	for qi, xf := range ch.Queries {
		idx := xf & (1<<nl - 1)
		var r Round
		for _, tr := range trees {
			r.Leaves = append(r.Leaves, Leaf{append([]F(nil), tr.Leaves[idx]...), tr.Path(idx)})
		}
		for li, ar := range c.Arity {
			idx >>= ar
			r.Steps = append(r.Steps, Step{append([]E(nil), layerVals[li][idx<<ar:(idx+1)<<ar]...), layers[li].Path(idx)})
		}
		if h.Round != nil {
			h.Round(qi, &r, &ch)
		}
		p.Rounds = append(p.Rounds, r)
	}
	return p
}

// FriData is what query openings are taken from.
type FriData struct {
	C      *Common
	Ch     Challenges
	Leaves [][][]F // four trees
	Layers [][]E   // codewords (bit-reversed order)
	Final  []E

	trees  []*Tree
	ltrees []*Tree
	// trees before a change: the source of an incremental update
	btrees, bltrees map[int]*Tree
}

// Tree i of the initial commitments (cached).
func (d *FriData) Tree(i int) *Tree {
	if d.trees == nil {
		d.trees = make([]*Tree, len(d.Leaves))
	}
	if d.trees[i] == nil {
		if b := d.btrees[i]; b != nil {
			var ch []int
			for k, l := range d.Leaves[i] {
				if &l[0] != &b.Leaves[k][0] {
					ch = append(ch, k)
				}
			}
			d.trees[i] = b.update(d.Leaves[i], ch, d.C.CapHeight)
		} else {
			d.trees[i] = NewTree(d.Leaves[i], d.C.CapHeight)
		}
	}
	return d.trees[i]
}

// Layer tree i (cached).
func (d *FriData) Layer(i int) *Tree {
	if d.ltrees == nil {
		d.ltrees = make([]*Tree, len(d.Layers))
	}
	if d.ltrees[i] == nil {
		ar := d.C.Arity[i]
		leaves := make([][]F, len(d.Layers[i])>>ar)
		var ch []int
		b := d.bltrees[i]
		for k := range leaves {
			leaves[k] = flat(d.Layers[i][k<<ar : (k+1)<<ar])
			if b != nil && !slices.Equal(leaves[k], b.Leaves[k]) {
				ch = append(ch, k)
			}
		}
		if b != nil {
			d.ltrees[i] = b.update(leaves, ch, d.C.CapHeight)
		} else {
			d.ltrees[i] = NewTree(leaves, d.C.CapHeight)
		}
	}
	return d.ltrees[i]
}

// Clone shares everything; use Touch* before changing a part.
func (d *FriData) Clone() *FriData {
	n := *d
	n.Leaves = append([][][]F(nil), d.Leaves...)
	n.Layers = append([][]E(nil), d.Layers...)
	n.Final = append([]E(nil), d.Final...)
	n.trees = append([]*Tree(nil), d.trees...)
	n.ltrees = append([]*Tree(nil), d.ltrees...)
	n.btrees, n.bltrees = map[int]*Tree{}, map[int]*Tree{}
	for k, t := range d.btrees {
		n.btrees[k] = t
	}
	for k, t := range d.bltrees {
		n.bltrees[k] = t
	}
	return &n
}

// TouchLeaf makes leaf idx of tree t writable (and forgets the cached tree).
func (d *FriData) TouchLeaf(t int, idx uint64) []F {
	d.Leaves[t] = append([][]F(nil), d.Leaves[t]...)
	d.Leaves[t][idx] = append([]F(nil), d.Leaves[t][idx]...)
	if d.trees != nil && d.trees[t] != nil {
		if d.btrees == nil {
			d.btrees = map[int]*Tree{}
		}
		d.btrees[t], d.trees[t] = d.trees[t], nil
	}
	return d.Leaves[t][idx]
}

// TouchLayer makes a codeword writable.
func (d *FriData) TouchLayer(i int) []E {
	d.Layers[i] = append([]E(nil), d.Layers[i]...)
	if d.ltrees != nil && d.ltrees[i] != nil {
		if d.bltrees == nil {
			d.bltrees = map[int]*Tree{}
		}
		d.bltrees[i], d.ltrees[i] = d.ltrees[i], nil
	}
	return d.Layers[i]
}

// Assemble makes the commitments and rounds for the queries into p.
func (d *FriData) Assemble(p *Proof, vk *VK, queries []F) {
	caps := make([][]fr.Element, 4)
	for i := range caps {
		caps[i] = append([]fr.Element(nil), d.Tree(i).Cap()...)
	}
	vk.Cap, p.WiresCap, p.ZsCap, p.QuotientCap = caps[0], caps[1], caps[2], caps[3]
	p.CommitCaps, p.Rounds = nil, nil
	for i := range d.Layers {
		p.CommitCaps = append(p.CommitCaps, append([]fr.Element(nil), d.Layer(i).Cap()...))
	}
	nl := d.C.DegreeBits + d.C.RateBits
	for _, q := range queries {
		idx := q & (1<<nl - 1)
		var r Round
		for i := range d.Leaves {
			r.Leaves = append(r.Leaves, Leaf{append([]F(nil), d.Leaves[i][idx]...), d.Tree(i).Path(idx)})
		}
		for i, ar := range d.C.Arity {
			idx >>= ar
			r.Steps = append(r.Steps, Step{append([]E(nil), d.Layers[i][idx<<ar:(idx+1)<<ar]...), d.Layer(i).Path(idx)})
		}
		p.Rounds = append(p.Rounds, r)
	}
	p.FinalPoly = append([]E(nil), d.Final...)
}
