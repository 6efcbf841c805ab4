package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/consensys/gnark/backend/groth16"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/logger"
)

// tinyCircuit stands in for the body of the packaged circuit: a small statement
// over the same data (public inputs, fixed proof, key and description).
const tinyCircuit = `package verifier

import (
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/rangecheck"
)

func (c *ExampleVerifierCircuit) Define(api frontend.API) error {
	rc := rangecheck.New(api)
	sum := frontend.Variable(0)
	for i, x := range c.PublicInputs {
		api.AssertIsEqual(x.Limb, api.Add(api.Mul(c.Proof.OpeningProof.PowWitness.Limb, i+1), c.VerifierOnlyCircuitData.CircuitDigest, int(c.CommonCircuitData.DegreeBits)))
		rc.Check(x.Limb, 40)
		sum = api.Mul(api.Add(sum, x.Limb), x.Limb)
	}
	api.AssertIsDifferent(sum, 0)
	return nil
}
`

// WriteBenchOverlay replaces the body of the packaged circuit, so that the tool
// itself can be run many times.
func WriteBenchOverlay(dir string) error {
	repl := map[string]string{}
	fs := token.NewFileSet()
	es, err := os.ReadDir(filepath.Join(repoDir, "verifier"))
	if err != nil {
		return err
	}
	for _, e := range es {
		p := filepath.Join(repoDir, "verifier", e.Name())
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fs, p, b, 0)
		if err != nil {
			return nil // the build reports it
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "Define" || fd.Recv == nil {
				continue
			}
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); !ok || id.Name != "ExampleVerifierCircuit" {
				continue
			}
			o := fs.Position(fd.Name.Pos()).Offset
			dst := filepath.Join(dir, fmt.Sprintf("bench%d.go", len(repl)))
			if err := os.WriteFile(dst, []byte(string(b[:o])+"mcOrigDefine"+string(b[o+len("Define"):])), 0o644); err != nil {
				return err
			}
			repl[p] = dst
		}
	}
	if len(repl) != 1 {
		return fmt.Errorf("%d definitions of the packaged circuit", len(repl))
	}
	dst := filepath.Join(dir, "tiny.go")
	if err := os.WriteFile(dst, []byte(tinyCircuit), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(repoDir, "verifier", "mc_tiny.go")] = dst
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(filepath.Join(dir, "bench.json"), j, 0o644)
}

// toolCircuit is the content of one circuit directory.
type toolCircuit struct {
	pow, digest, deg uint64
	pis              []uint64
}

func (t toolCircuit) valid() bool {
	for i, x := range t.pis {
		if x != t.pow*uint64(i+1)+t.digest+t.deg {
			return false
		}
	}
	return true
}

func honestTool(pow, digest, deg uint64, n int) toolCircuit {
	t := toolCircuit{pow: pow, digest: digest, deg: deg}
	for i := 0; i < n; i++ {
		t.pis = append(t.pis, pow*uint64(i+1)+digest+deg)
	}
	return t
}

const (
	fileProof  = "proof_with_public_inputs.json"
	fileVK     = "verifier_only_circuit_data.json"
	fileCommon = "common_circuit_data.json"
)

func (t toolCircuit) docs() map[string][]byte {
	pr, vk, co := (&docGen{}).proof(), (&docGen{}).vk(), (&docGen{}).common()
	n := func(x uint64) any { return json.Number(fmt.Sprint(x)) }
	at := func(v any, ks ...string) map[string]any {
		m := v.(map[string]any)
		for _, k := range ks {
			m = m[k].(map[string]any)
		}
		return m
	}
	at(pr, "proof", "opening_proof")["pow_witness"] = n(t.pow)
	pi := make([]any, len(t.pis))
	for i, x := range t.pis {
		pi[i] = n(x)
	}
	at(pr)["public_inputs"] = pi
	at(vk)["circuit_digest"] = fmt.Sprint(t.digest)
	at(co, "fri_params")["degree_bits"] = n(t.deg)
	return map[string][]byte{fileProof: mustJSON(pr), fileVK: mustJSON(vk), fileCommon: mustJSON(co)}
}

// toolRun is one run of the tool.
type toolRun struct {
	circuit              string
	system               string
	dummy, save, profile bool
	limit                int // kB per file, 0: none
}

func (r toolRun) args() []string {
	return []string{"-plonky2-circuit", r.circuit, "-proof-system", r.system, fmt.Sprintf("-dummy=%t", r.dummy), fmt.Sprintf("-save=%t", r.save), fmt.Sprintf("-profile=%t", r.profile)}
}

type toolCase struct {
	name string
	runs []toolRun
	// what the last run must do: "ok", "fail", "either" (faults that need not matter)
	want string
	pre  func(dir string)
}

var toolArtifacts = []string{"proving.key", "verifying.key", "proof.sol", "witness", "proof.proof"}

// checkArtifacts verifies that the saved files belong together and to the
// circuit; "" if so.
func checkArtifacts(dir string, r toolRun, t toolCircuit) string {
	read := func(name string, to io.ReaderFrom) string {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return "missing: " + err.Error()
		}
		n, err := to.ReadFrom(bytes.NewReader(b))
		if err != nil {
			return fmt.Sprintf("%s (%d bytes) cannot be read: %v", name, len(b), err)
		}
		if int(n) != len(b) {
			return fmt.Sprintf("%s has %d bytes, %d belong to it", name, len(b), n)
		}
		return ""
	}
	w, err := witness.New(ecc.BN254.ScalarField())
	if err != nil {
		return err.Error()
	}
	if s := read("witness", w); s != "" {
		return s
	}
	exp, _ := witness.New(ecc.BN254.ScalarField())
	ch := make(chan any, len(t.pis))
	for _, x := range t.pis {
		ch <- new(big.Int).SetUint64(x)
	}
	close(ch)
	if err := exp.Fill(len(t.pis), 0, ch); err != nil {
		return err.Error()
	}
	a, _ := w.MarshalBinary()
	b, _ := exp.MarshalBinary()
	if !bytes.Equal(a, b) {
		return "the saved witness is not the circuit's public inputs"
	}
	pub, err := w.Public()
	if err != nil {
		return err.Error()
	}
	var sol bytes.Buffer
	switch r.system {
	case "groth16":
		pk, vk, proof := groth16.NewProvingKey(ecc.BN254), groth16.NewVerifyingKey(ecc.BN254), groth16.NewProof(ecc.BN254)
		for _, s := range []string{read("proving.key", pk), read("proof.proof", proof)} {
			if s != "" {
				return s
			}
		}
		if r.dummy {
			return "" // no verifying key exists
		}
		if s := read("verifying.key", vk); s != "" {
			return s
		}
		if err := groth16.Verify(proof, vk, pub); err != nil {
			return "the saved proof does not verify under the saved key: " + err.Error()
		}
		if p, ok := pk.(*groth16_bn254.ProvingKey); ok {
			if v, ok := vk.(*groth16_bn254.VerifyingKey); ok && (!p.G1.Alpha.Equal(&v.G1.Alpha) || !p.G2.Beta.Equal(&v.G2.Beta) || !p.G2.Delta.Equal(&v.G2.Delta)) {
				return "proving and verifying key belong to different setups"
			}
		}
		if err := vk.ExportSolidity(&sol); err != nil {
			return ""
		}
	case "plonk":
		pk, vk, proof := plonk.NewProvingKey(ecc.BN254), plonk.NewVerifyingKey(ecc.BN254), plonk.NewProof(ecc.BN254)
		for _, s := range []string{read("proving.key", pk), read("proof.proof", proof), read("verifying.key", vk)} {
			if s != "" {
				return s
			}
		}
		if err := plonk.Verify(proof, vk, pub); err != nil {
			return "the saved proof does not verify under the saved key: " + err.Error()
		}
		var k1, k2 bytes.Buffer
		if v, ok := pk.VerifyingKey().(plonk.VerifyingKey); ok {
			v.WriteTo(&k1)
			vk.WriteTo(&k2)
			if !bytes.Equal(k1.Bytes(), k2.Bytes()) {
				return "proving and verifying key belong to different setups"
			}
		}
		if err := vk.ExportSolidity(&sol); err != nil {
			return ""
		}
	}
	got, err := os.ReadFile(filepath.Join(dir, "proof.sol"))
	if err != nil {
		return "missing: " + err.Error()
	}
	if !bytes.Equal(got, sol.Bytes()) {
		return fmt.Sprintf("proof.sol (%d bytes) is not the verifier of the saved key (%d bytes)", len(got), sol.Len())
	}
	return ""
}

func srsFile(n int, tau int64, edit func(s *kzg_bn254.SRS)) []byte {
	s, err := kzg_bn254.NewSRS(uint64(n), big.NewInt(tau))
	if err != nil {
		panic(err)
	}
	if edit != nil {
		edit(s)
	}
	var b bytes.Buffer
	if _, err := s.WriteTo(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func init() {
	reg("C32", func(c *Ctx) {
		logger.Disable()
		bench := os.Getenv("MC_BENCH")
		if bench == "" {
			panic("the tool was not built")
		}
		c.Assume("the body of the packaged circuit is replaced by a small statement over the same data (the tool, the proof systems and all files are real)")
		c.Assume("file faults: a path that cannot be created, a full device, and a size limit at every kilobyte of the longest artifact; files left by an earlier run with a verifying key are not claimed to be removed by a dummy Groth16 run")
		tmp, err := os.MkdirTemp("", "verifc32")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(tmp)
		good := map[string]toolCircuit{"a": honestTool(1234567, 89, 5, 3), "b": honestTool(42, 7, 11, 1), "c": honestTool(99999, 100000, 3, 9)}
		bad := map[string]toolCircuit{}
		for i := range good["a"].pis {
			x := good["a"]
			x.pis = append([]uint64(nil), x.pis...)
			x.pis[i]++
			bad[fmt.Sprintf("pi%d", i)] = x
		}
		x := good["a"]
		x.pow++
		bad["pow"] = x
		x = good["a"]
		x.digest--
		bad["digest"] = x
		x = good["a"]
		x.deg = 4
		bad["degree"] = x
		srs := srsFile(1100, 987654321, nil)
		var cases []toolCase
		add := func(name, want string, pre func(string), runs ...toolRun) {
			cases = append(cases, toolCase{name, runs, want, pre})
		}
		put := func(f string, b []byte) func(string) {
			return func(d string) { os.WriteFile(filepath.Join(d, f), b, 0o644) }
		}
		tf := []bool{false, true}
		// every combination of options on valid and invalid circuits
		for _, sys := range []string{"plonk", "groth16", "", "Plonk", "groth", "stark"} {
			for _, dummy := range tf {
				for _, save := range tf {
					for _, prof := range tf {
						for _, ci := range []string{"a", "b", "c", "pi0", "pi1", "pi2", "pow", "digest", "degree", "absent"} {
							_, ok := good[ci]
							if !ok && (prof || !c.Thorough() && save && ci[0] == 'p' && ci != "pi1") {
								continue
							}
							if sys != "plonk" && sys != "groth16" {
								ok = false
								if ci != "a" || prof {
									continue
								}
							}
							r := toolRun{circuit: ci, system: sys, dummy: dummy, save: save, profile: prof}
							add(fmt.Sprint(r.args()), map[bool]string{true: "ok", false: "fail"}[ok], put("srs_setup", srs), r)
						}
					}
				}
			}
		}
		// missing and malformed documents
		for _, f := range []string{fileProof, fileVK, fileCommon} {
			for _, sys := range []string{"plonk", "groth16"} {
				f := f
				p := func(d string) string { return filepath.Join(d, "testdata", "a", f) }
				add(f+" missing", "fail", func(d string) { os.Remove(p(d)) }, toolRun{circuit: "a", system: sys, dummy: true})
				add(f+" empty", "fail", func(d string) { os.WriteFile(p(d), nil, 0o644) }, toolRun{circuit: "a", system: sys, dummy: true})
				add(f+" truncated", "fail", func(d string) {
					b, _ := os.ReadFile(p(d))
					os.WriteFile(p(d), b[:len(b)-1], 0o644)
				}, toolRun{circuit: "a", system: sys, dummy: true})
			}
		}
		// reference strings
		_, _, _, g2 := bn254.Generators()
		for _, s := range []struct {
			n string
			b []byte
		}{
			{"missing", nil},
			{"empty", []byte{}},
			{"cut in half", srs[:len(srs)/2]},
			{"without the last byte", srs[:len(srs)-1]},
			{"too short", srsFile(20, 987654321, nil)},
			{"wrong second element", srsFile(1100, 987654321, func(s *kzg_bn254.SRS) { s.Vk.G2[1].ScalarMultiplication(&g2, big.NewInt(5)) })},
			{"G2 elements exchanged", srsFile(1100, 987654321, func(s *kzg_bn254.SRS) { s.Vk.G2[0], s.Vk.G2[1] = s.Vk.G2[1], s.Vk.G2[0] })},
			{"powers of another secret", srsFile(1100, 987654321, func(s *kzg_bn254.SRS) {
				o, _ := kzg_bn254.NewSRS(1100, big.NewInt(3))
				s.Pk = o.Pk
			})},
			{"first power wrong", srsFile(1100, 987654321, func(s *kzg_bn254.SRS) { s.Pk.G1[1].Add(&s.Pk.G1[1], &s.Pk.G1[0]) })},
			{"a middle power wrong", srsFile(1100, 987654321, func(s *kzg_bn254.SRS) { s.Pk.G1[7].Add(&s.Pk.G1[7], &s.Pk.G1[0]) })},
			{"another secret", srsFile(1100, 31337, nil)},
			{"longer", srsFile(3000, 31337, nil)},
		} {
			s := s
			want := "fail"
			if s.n == "another secret" || s.n == "longer" {
				want = "ok"
			}
			for _, save := range tf {
				add("reference string "+s.n, want, func(d string) {
					if s.b != nil {
						os.WriteFile(filepath.Join(d, "srs_setup"), s.b, 0o644)
					}
				}, toolRun{circuit: "a", system: "plonk", save: save})
			}
		}
		// artifacts that cannot be written
		type sd struct {
			sys   string
			dummy bool
		}
		sds := []sd{{"plonk", true}, {"plonk", false}, {"groth16", false}, {"groth16", true}}
		for _, s := range sds {
			for _, f := range toolArtifacts {
				r := toolRun{circuit: "a", system: s.sys, dummy: s.dummy, save: true}
				want := "fail"
				if s.sys == "groth16" && s.dummy && (f == "verifying.key" || f == "proof.sol") {
					want = "ok" // not written
				}
				for k, pre := range map[string]func(string){
					"is a directory":    func(d string) { os.Mkdir(filepath.Join(d, f), 0o755) },
					"device is full":    func(d string) { os.Symlink("/dev/full", filepath.Join(d, f)) },
					"cannot be created": func(d string) { os.Symlink("nowhere/"+f, filepath.Join(d, f)) },
				} {
					add(fmt.Sprintf("%v %s %s", r.args(), f, k), want, func(d string) { put("srs_setup", srs)(d); pre(d) }, r)
				}
			}
		}
		// every sequence of two saving runs in one directory
		seq := []toolRun{{circuit: "a", system: "groth16"}, {circuit: "b", system: "groth16"}, {circuit: "c", system: "plonk"}, {circuit: "b", system: "plonk", dummy: true}, {circuit: "a", system: "groth16", dummy: true}, {circuit: "pi1", system: "groth16"}}
		for _, p := range seq {
			for k, q := range seq[:4] {
				p.save, q.save = true, true
				add(fmt.Sprintf("history %v then %d", p.args(), k), "ok", put("srs_setup", srs), p, q)
			}
		}
		run := func(i int, tc toolCase, r toolRun, dir string) (int, string) {
			a := r.args()
			cmd := exec.Command(bench, a...)
			if r.limit > 0 {
				cmd = exec.Command("/bin/bash", append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", r.limit), bench}, a...)...)
			}
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "HTTP_PROXY=http://127.0.0.1:9", "HTTPS_PROXY=http://127.0.0.1:9")
			var eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &eb, &eb
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			timer := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			timer.Stop()
			c.State(1)
			c.Trans(int64(bytes.Count(eb.Bytes(), []byte("\n"))))
			if err == nil {
				return 0, eb.String()
			}
			return cmd.ProcessState.ExitCode(), eb.String()
		}
		docs := map[string]map[string][]byte{}
		for _, m := range []map[string]toolCircuit{good, bad} {
			for n, t := range m {
				docs[n] = t.docs()
			}
		}
		play := func(i int, tc toolCase) (sizes map[string]int64) {
			dir := filepath.Join(tmp, fmt.Sprint(i))
			defer os.RemoveAll(dir)
			for _, r := range tc.runs {
				for f, b := range docs[r.circuit] {
					p := filepath.Join(dir, "testdata", r.circuit, f)
					os.MkdirAll(filepath.Dir(p), 0o755)
					os.WriteFile(p, b, 0o644)
				}
			}
			os.MkdirAll(filepath.Join(dir, "testdata"), 0o755)
			if tc.pre != nil {
				tc.pre(dir)
			}
			var rc int
			var msg string
			for _, r := range tc.runs {
				rc, msg = run(i, tc, r, dir)
			}
			c.Trace(1)
			last := tc.runs[len(tc.runs)-1]
			det := map[string]any{"runs": fmt.Sprintf("%+v", tc.runs), "exit": rc, "output": clip(msg)}
			key := caseKey(tc.name)
			if rc != 0 {
				if tc.want == "ok" {
					c.Violate(key, det, "the tool fails (exit %d) although nothing is wrong: %s", rc, lastLines(msg))
				}
				return
			}
			if tc.want == "fail" {
				c.Violate(key, det, "the tool reports success although it must not (%s)", tc.name)
				return
			}
			if last.save {
				if s := checkArtifacts(dir, last, good[last.circuit]); s != "" {
					c.Violate(key, det, "the tool reports success but its artifacts are not those of one verified proof: %s", s)
					return
				}
			}
			sizes = map[string]int64{}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() {
					sizes[e.Name()] = fi.Size()
				}
			}
			if !last.save {
				for _, f := range toolArtifacts {
					if _, ok := sizes[f]; ok {
						c.Violate(key, det, "%s is written although saving was not asked for", f)
					}
				}
			}
			return
		}
		c.Par(len(cases), func(i int) { play(i, cases[i]) })
		// torn writes: a size limit at every kilobyte
		if !c.Enough0() {
			var torn []toolCase
			for si, s := range sds {
				r := toolRun{circuit: "b", system: s.sys, dummy: s.dummy, save: true}
				sz := play(len(cases)+si, toolCase{name: fmt.Sprint(r.args()), runs: []toolRun{r}, want: "ok", pre: put("srs_setup", srs)})
				var mx, total int64
				var ns []string
				for _, f := range toolArtifacts {
					mx = max(mx, sz[f])
					total += sz[f]
					ns = append(ns, fmt.Sprintf("%s:%d", f, sz[f]))
				}
				c.Sample(fmt.Sprintf("%v artifacts %v", r.args(), ns))
				lims := map[int]bool{}
				for _, f := range toolArtifacts {
					k := int(sz[f] / 1024)
					for d := -1; d <= 1; d++ {
						lims[k+d] = true
					}
				}
				for k := 1; k <= int(mx/1024)+1; k++ {
					if k <= 40 || k%16 == 0 || c.Thorough() {
						lims[k] = true
					}
				}
				var ks []int
				for k := range lims {
					if k > 0 {
						ks = append(ks, k)
					}
				}
				sort.Ints(ks)
				for _, k := range ks {
					q := r
					q.limit = k
					want := "fail"
					if int64(k)*1024 >= mx {
						want = "ok"
					}
					torn = append(torn, toolCase{fmt.Sprintf("%v files limited to %d kB", r.args(), k), []toolRun{q}, want, put("srs_setup", srs)})
				}
			}
			c.Par(len(torn), func(i int) { play(1000+len(cases)+i, torn[i]) })
			c.Set("torn_writes", len(torn))
		}
		c.Set("runs", len(cases))
	})
}

func lastLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 3 {
		l = l[len(l)-3:]
	}
	return clip(strings.Join(l, " | "))
}
