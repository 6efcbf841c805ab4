package ref

import (
	"testing"
	"time"
)

func TestProve(t *testing.T) {
	for _, cfg := range []*Common{
		NewCommon([]Gate{GNoop(), GConstant(2), GArithmetic(2), GPublicInput()}, []int{2, 2}, 4, 1, 2, 3, 2, 8, 4, 3, []int{}),
		NewCommon([]Gate{GNoop(), GConstant(2), GArithmetic(2), GPublicInput()}, []int{4}, 5, 3, 3, 4, 1, 8, 8, 5, []int{4}),
		NewCommon([]Gate{GNoop(), GPublicInput(), GPoseidon()}, []int{2, 1}, 9, 3, 1, 2, 2, 16, 8, 5, []int{4, 4}),
	} {
		s := time.Now()
		ci := NewCircuit(cfg, 3)
		p := ci.Prove(Hooks{})
		pt := time.Since(s)
		s = time.Now()
		err := cfg.Verify(ci.VK(), p)
		t.Log(pt, time.Since(s), err, cfg.NumWires, cfg.NumConstants)
		if err != nil {
			t.Error(err)
		}
	}
}

func TestIncrementalTrees(t *testing.T) {
	c := NewCommon([]Gate{GNoop(), GConstant(2), GArithmetic(2), GPublicInput()}, []int{2, 2}, 5, 3, 0, 1, 1, 8, 8, 3, []int{4})
	ci := NewCircuit(c, 3)
	var d *FriData
	ci.Prove(Hooks{Data: func(x *FriData) { d = x }})
	for i := range d.Leaves {
		d.Tree(i)
	}
	d.Layer(0)
	for k := uint64(0); k < 256; k += 5 {
		n := d.Clone()
		l := n.TouchLeaf(1, k)
		l[0]++
		n.TouchLeaf(1, (k*7+1)%256)[1]++
		o := (k + 77) % 256
		n.Leaves[1][k], n.Leaves[1][o] = n.Leaves[1][o], n.Leaves[1][k]
		n.TouchLayer(0)[k][1]++
		full := NewTree(n.Leaves[1], c.CapHeight)
		lay := *n
		lay.ltrees, lay.bltrees = nil, nil
		for q := uint64(0); q < 256; q++ {
			for x, y := range n.Tree(1).Path(q) {
				if y != full.Path(q)[x] {
					t.Fatal("path", k, q, x)
				}
			}
		}
		for x := range full.Cap() {
			if full.Cap()[x] != n.Tree(1).Cap()[x] || lay.Layer(0).Cap()[x] != n.Layer(0).Cap()[x] {
				t.Fatal("cap", k, x)
			}
		}
	}
}
