package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"

	"verifmc/eng"
	"verifmc/ref"
)

// Exp is an output whose value is forced.
type Exp struct {
	Name string
	V    frontend.Variable
	Want *big.Int
	ModP bool // only congruence is promised
}

func u(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func expF(name string, v gl.Variable, want ref.F) Exp {
	return Exp{Name: name, V: v.Limb, Want: u(want)}
}
func expE(name string, v gl.QuadraticExtensionVariable, want ref.E) []Exp {
	return []Exp{expF(name+"[0]", v[0], want[0]), expF(name+"[1]", v[1], want[1])}
}
func expA(name string, v gl.QuadraticExtensionAlgebraVariable, want ref.A) []Exp {
	return append(expE(name+"[0]", v[0], want[0]), expE(name+"[1]", v[1], want[1])...)
}

// Verdict expected of the honest execution.
type Verdict int

const (
	Accept Verdict = iota // satisfiable, outputs forced
	Reject                // unsatisfiable for every advice
	Refuse                // construction refused (panic or error)
	RejectOrRefuse
)

// Case is one execution tree.
type Case struct {
	Key    string
	Mode   eng.Mode
	Opt    eng.Options
	Want   Verdict
	Detail any
	Define func(api frontend.API) []Exp
}

// Do explores a case and judges every surviving execution.
func (c *Ctx) Do(k Case) eng.Result {
	if k.Opt.Menu != nil {
		k.Opt.KeepTrace = true
	}
	api, core := eng.New(k.Mode, k.Opt)
	var exps []Exp
	res := core.Run(func(frontend.API) error {
		exps = k.Define(api)
		return nil
	})
	c.Account(res)
	defer core.Release()
	key := k.Key + "/" + k.Mode.String()
	switch k.Want {
	case Accept:
		if res.Panic != nil || res.Err != nil {
			c.Violate(key, k.Detail, "a circuit that must work was refused: %s", clip(res.BaseFail))
			return res
		}
		if !res.BaseOK {
			c.Violate(key, k.Detail, "honest execution not satisfiable: %s", clip(res.BaseFail))
		}
	case Reject:
		if res.Panic != nil || res.Err != nil {
			c.Violate(key, k.Detail, "a circuit that must be built was refused: %s", clip(res.BaseFail))
			return res
		}
		if res.BaseOK {
			c.Violate(key, k.Detail, "an execution that must be rejected satisfies every constraint")
		}
	case Refuse:
		if res.Panic == nil && res.Err == nil {
			c.Violate(key, k.Detail, "construction must be refused but succeeded (satisfiable: %v)", res.BaseOK)
		}
		c.Trace(1)
		return res
	case RejectOrRefuse:
		if res.BaseOK {
			c.Violate(key, k.Detail, "an execution that must be rejected satisfies every constraint")
		}
	}
	c.Trace(1)
	judge := func(l int32) {
		for _, e := range exps {
			got := core.LaneVal(e.V, l)
			bad := false
			if e.ModP {
				bad = ref.ModP(got) != ref.ModP(e.Want)
			} else {
				bad = got.Cmp(e.Want) != 0
			}
			if bad {
				if l < 0 {
					c.Violate(key, map[string]any{"case": k.Detail, "output": e.Name, "got": got.String(), "want": e.Want.String()},
						"honest execution yields %s=%s, expected %s", e.Name, got, e.Want)
				} else {
					c.Violate(key, map[string]any{"case": k.Detail, "output": e.Name, "got": got.String(), "want": e.Want.String(), "advice": core.Trace(l)},
						"dishonest advice satisfies every constraint and yields %s=%s instead of %s", e.Name, got, e.Want)
				}
				return
			}
		}
	}
	if res.Panic != nil || res.Err != nil {
		return res
	}
	if k.Want == Accept {
		if res.BaseOK {
			judge(-1)
		}
		for _, l := range res.Alive {
			judge(l)
		}
		return res
	}
	for _, l := range res.Alive {
		c.Violate(key, map[string]any{"case": k.Detail, "advice": core.Trace(l)}, "dishonest advice makes a rejected execution satisfy every constraint")
		break
	}
	return res
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ReplaceAll(s, "\n", " ")
}

// alphabets of canonical field values
func alphabet(n int) []ref.F {
	all := []ref.F{
		0, 1, ref.P - 1, 1<<32 - 1, 1 << 32, ref.P - 1<<32, 2, ref.P - 2, 7,
		1 << 63, (ref.P - 1) / 2, 0x9e3779b97f4a7c15 % ref.P, ref.P - 1<<32 - 1, ref.P - 1<<32 + 1, 1<<32 + 1,
		(ref.P + 1) / 2, 1<<63 - 1, 1 << 16, 1<<16 - 1, 1 << 31, 1<<32 - 2, 3, 1 << 48, 1 << 62, 0x0123456789abcdef, 0xfedcba98_00000000,
		0xfffffffe_ffffffff, 0xdeadbeefcafebabe, 1753635133440165772, 0x00000000ffff0000, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa,
	}
	if n > len(all) {
		n = len(all)
	}
	return all[:n]
}

// splitmix: deterministic filler values
type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) f() ref.F { return r.next() % ref.P }
func (r *rng) e() ref.E { return ref.E{r.f(), r.f()} }

func v(x ref.F) gl.Variable { return gl.NewVariable(eng.NewVar(x)) }

// k makes a constant operand.
func k(x ref.F) gl.Variable { return gl.NewVariable(x) }

func vb(x *big.Int) gl.Variable { return gl.NewVariable(eng.NewVar(x)) }

func ve(x ref.E) gl.QuadraticExtensionVariable {
	return gl.NewQuadraticExtensionVariable(v(x[0]), v(x[1]))
}
func ke(x ref.E) gl.QuadraticExtensionVariable {
	return gl.NewQuadraticExtensionVariable(k(x[0]), k(x[1]))
}
func va(x ref.A) gl.QuadraticExtensionAlgebraVariable {
	return gl.QuadraticExtensionAlgebraVariable{ve(x[0]), ve(x[1])}
}
func ves(x []ref.E) []gl.QuadraticExtensionVariable {
	o := make([]gl.QuadraticExtensionVariable, len(x))
	for i := range x {
		o[i] = ve(x[i])
	}
	return o
}

func attack(level eng.MenuLevel, devs, window int) eng.Options {
	return eng.Options{Menu: eng.Menu(level), MaxDevs: devs, Window: window}
}

func caseKey(parts ...any) string {
	s := make([]string, len(parts))
	for i := range parts {
		s[i] = fmt.Sprint(parts[i])
	}
	return strings.Join(s, ",")
}

func sortStrings(s []string) { sort.Strings(s) }

func glNew(api frontend.API) *gl.Chip { return gl.New(api) }

func qvars(t *trc, n int) (o []gl.QuadraticExtensionVariable) {
	for i := 0; i < n; i++ {
		x := t.op("input", 2)
		o = append(o, gl.QuadraticExtensionVariable{gl.NewVariable(x[0]), gl.NewVariable(x[1])})
	}
	return
}

func ghash(h []frontend.Variable) poseidon.GoldilocksHashOut {
	return poseidon.GoldilocksHashOut{gl.NewVariable(h[0]), gl.NewVariable(h[1]), gl.NewVariable(h[2]), gl.NewVariable(h[3])}
}
