package ref

import (
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"testing"
)

func TestP(t *testing.T) {
	var s [4]fr.Element
	for i := range s {
		s[i].SetUint64(uint64(i))
	}
	o := BNPerm(s)
	if o[0].String() != "6542985608222806190361240322586112750744169038454362455181422643027100751666" {
		t.Fatal(o[0].String())
	}
	t.Log(GLPerm([12]F{}))
	if GLPerm([12]F{})[0] != 0x3c18a9786cb0b359 {
		t.Fatal("gl")
	}
}

func TestFastForm(t *testing.T) {
	var s [12]F
	for i := range s {
		s[i] = uint64(i)*0x123456789abcdef + 5
	}
	if GLFastPerm(s) != GLPerm(s) {
		t.Fatal("fast form differs")
	}
	for i, x := range GLReaching(s) {
		st := glSteps()
		for j := 0; j < i; j++ {
			x = st[j].fwd(x)
		}
		if x != s {
			t.Fatal("not reached", i)
		}
	}
}
