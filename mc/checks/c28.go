package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"
	"golang.org/x/crypto/blake2b"
)

// ---- child process: the real tool on a served ceremony

type stubTransport struct {
	www    string
	faults map[string]string
}

type cutBody struct {
	r io.Reader
}

func (b *cutBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (b *cutBody) Close() error { return nil }

func (s *stubTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	parts := strings.Split(strings.TrimPrefix(r.URL.Path, "/"), "/")
	rel := strings.Join(parts[1:], "/")
	mk := func(code int, b io.ReadCloser) (*http.Response, error) {
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: b, Header: http.Header{}, ContentLength: -1, Request: r}, nil
	}
	f, err := os.OpenFile(filepath.Join(s.www, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		fmt.Fprintln(f, rel)
		f.Close()
	}
	fault := s.faults[rel]
	if fault == "error" {
		return nil, errors.New("connection refused")
	}
	b, err := os.ReadFile(filepath.Join(s.www, rel))
	if err != nil || fault == "404" {
		return mk(404, io.NopCloser(strings.NewReader("<?xml version=\"1.0\"?><Error><Code>NoSuchKey</Code></Error>")))
	}
	switch fault {
	case "empty":
		return mk(200, io.NopCloser(bytes.NewReader(nil)))
	case "short":
		return mk(200, io.NopCloser(bytes.NewReader(b[:len(b)/2])))
	case "short1":
		return mk(200, io.NopCloser(bytes.NewReader(b[:len(b)-1])))
	case "cut":
		return mk(200, &cutBody{bytes.NewReader(b[:len(b)/2])})
	case "cut-at-end":
		return mk(200, &cutBody{bytes.NewReader(b)})
	case "flip-point":
		b[28+40] ^= 1
	case "flip-checksum":
		b[len(b)-1] ^= 1
	}
	return mk(200, io.NopCloser(bytes.NewReader(b)))
}

// TrustedSetupChild runs the tool in a scratch directory.
func TrustedSetupChild(args []string) {
	var faults map[string]string
	var start int
	fmt.Sscan(args[2], &start)
	if json.Unmarshal([]byte(args[4]), &faults) != nil {
		os.Exit(70)
	}
	if os.Chdir(args[1]) != nil {
		os.Exit(70)
	}
	t := &stubTransport{args[0], faults}
	http.DefaultTransport = t
	http.DefaultClient = &http.Client{Transport: t}
	trusted_setup.DownloadAndSaveAztecIgnitionSrs(start, args[3])
	os.Exit(0)
}

// ---- ceremony model: a contribution is (x, d) with powers of x in G1, x and d in G2

type contribution struct {
	name  string
	x, d  *big.Int
	badG1 int // index of a wrong power, or -1
	badG2 bool
}

var frMod = fr.Modulus()

func (c *contribution) valid() bool { return c.badG1 < 0 && !c.badG2 }
func (c *contribution) follows(p *contribution) bool {
	return new(big.Int).Mod(new(big.Int).Mul(c.d, p.x), frMod).Cmp(new(big.Int).Mod(c.x, frMod)) == 0
}

func (c *contribution) g1(n int) []bn254.G1Affine {
	_, _, g, _ := bn254.Generators()
	o := make([]bn254.G1Affine, n)
	e := new(big.Int).Mod(c.x, frMod)
	for i := range o {
		k := new(big.Int).Set(e)
		if i == c.badG1 {
			k.Add(k, big.NewInt(1))
		}
		o[i].ScalarMultiplication(&g, k)
		e.Mul(e, c.x).Mod(e, frMod)
	}
	return o
}

func (c *contribution) g2() (o [2]bn254.G2Affine) {
	_, _, _, g := bn254.Generators()
	k := new(big.Int).Set(c.x)
	if c.badG2 {
		k.Add(k, big.NewInt(1))
	}
	o[0].ScalarMultiplication(&g, k)
	o[1].ScalarMultiplication(&g, c.d)
	return
}

func (c *contribution) srs(n int) []byte {
	_, _, _, g2 := bn254.Generators()
	p := c.g1(n)
	s := kzg_bn254.SRS{Pk: kzg_bn254.ProvingKey{G1: p}, Vk: kzg_bn254.VerifyingKey{G1: p[0], G2: [2]bn254.G2Affine{g2, c.g2()[0]}}}
	var b bytes.Buffer
	if _, err := s.WriteTo(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func fpBytes(b *bytes.Buffer, x fp.Element) {
	w := x.Bits()
	for _, l := range w {
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], l)
		b.Write(t[:])
	}
}

// files encodes the contribution as nt transcripts.
func (c *contribution) files(n, nt int) [][]byte {
	p, q := c.g1(n), c.g2()
	var out [][]byte
	for t := 0; t < nt; t++ {
		lo, hi := n*t/nt, n*(t+1)/nt
		var b bytes.Buffer
		ng2 := 0
		if t == 0 {
			ng2 = 2
		}
		for _, h := range []int{t, nt, n, 1, hi - lo, ng2, lo} {
			var w [4]byte
			binary.BigEndian.PutUint32(w[:], uint32(h))
			b.Write(w[:])
		}
		for i := lo; i < hi; i++ {
			fpBytes(&b, p[i].X)
			fpBytes(&b, p[i].Y)
		}
		if t == 0 {
			for i := range q {
				fpBytes(&b, q[i].X.A0)
				fpBytes(&b, q[i].X.A1)
				fpBytes(&b, q[i].Y.A0)
				fpBytes(&b, q[i].Y.A1)
			}
		}
		h := blake2b.Sum512(b.Bytes())
		b.Write(h[:])
		out = append(out, b.Bytes())
	}
	return out
}

func init() {
	reg("C28", func(c *Ctx) {
		c.Assume("the ceremony host is replaced by an in-process HTTP transport; a contribution is valid and follows its predecessor exactly if the discrete logarithms used to generate it say so")
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		tmp, err := os.MkdirTemp("", "c28")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(tmp)
		n := func(s int64) *big.Int { return new(big.Int).Exp(big.NewInt(s), big.NewInt(61), frMod) }
		mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, b), frMod) }
		d1, d2, d3, d4 := n(3), n(5), n(7), n(11)
		a0 := n(13)
		a1, b0 := mul(a0, d1), n(17)
		a2 := mul(a1, d2)
		a3 := mul(a2, d3)
		a4 := mul(a3, d4)
		A := []*contribution{{"A0", a0, n(19), -1, false}, {"A1", a1, d1, -1, false}, {"A2", a2, d2, -1, false}, {"A3", a3, d3, -1, false}, {"A4", a4, d4, -1, false}}
		alpha := []*contribution{A[0], A[1], A[2],
			{"B1", mul(b0, d1), d1, -1, false},               // another ceremony
			{"A1-noop", a1, big.NewInt(1), -1, false},        // follows A1 without changing it
			{"A1-wrong-ratio", a1, d2, -1, false},            // G2 ratio of somebody else
			{"A2-bad-power", a2, d2, 17, false},              // one power inconsistent
			{"A2-bad-last-power", a2, d2, 63, false},         // last power inconsistent
			{"A2-bad-g2", a2, d2, -1, true},                  // G2 point inconsistent
			{"A2-maul", mul(a2, a0), mul(d2, a0), -1, false}, // follows A1 with another secret
		}
		// served files are generated once
		type fkey struct {
			c     *contribution
			n, nt int
		}
		cache := map[fkey][][]byte{}
		want := map[fkey][]byte{}
		get := func(ct *contribution, n, nt int) [][]byte {
			k := fkey{ct, n, nt}
			if cache[k] == nil {
				cache[k] = ct.files(n, nt)
				want[fkey{ct, n, 0}] = ct.srs(n)
			}
			return cache[k]
		}
		for _, ct := range append(append([]*contribution{}, alpha...), A[3:]...) {
			for nt := 1; nt <= 2; nt++ {
				get(ct, 64, nt)
				get(ct, 61, nt)
			}
			get(ct, 24, 1)
		}
		type scen struct {
			name   string
			seq    []*contribution
			start  int
			points int
			nt     int
			faults map[string]string // relative path -> fault
			out    string            // special output path
			pre    int               // size of a pre-existing output file
			prior  map[string]string // faults of an earlier run in the same directory
			noMan  string            // manifest fault
			reject bool              // rejected for a reason outside the sequence
		}
		path := func(i, t int) string { return fmt.Sprintf("%03d_0xabcdef%02d/transcript%02d.dat", 10+i, i, t) }
		var ss []scen
		var rec func(l int, seq []*contribution, f func([]*contribution))
		rec = func(l int, seq []*contribution, f func([]*contribution)) {
			if l == 0 {
				f(append([]*contribution{}, seq...))
				return
			}
			for _, x := range alpha {
				rec(l-1, append(seq, x), f)
			}
		}
		lens := []int{2, 3}
		if c.Thorough() {
			lens = []int{2, 3, 4}
		}
		for _, l := range lens {
			rec(l, nil, func(s []*contribution) { ss = append(ss, scen{name: "sequence", seq: s, points: 64, nt: 1 + l%2}) })
		}
		// later start: the prefix is not part of the verified transcript
		rec(2, nil, func(s []*contribution) {
			ss = append(ss, scen{name: "late start", seq: append([]*contribution{A[0]}, s...), start: 1, points: 64, nt: 1})
		})
		// long honest ceremonies, broken at one place
		for ln := 2; ln <= 5; ln++ {
			for start := 0; start+1 < ln; start++ {
				for nt := 1; nt <= 2; nt++ {
					ss = append(ss, scen{name: "honest", seq: A[:ln], start: start, points: 61, nt: nt})
					ss = append(ss, scen{name: "honest over a longer file", seq: A[:ln], start: start, points: 61, nt: nt, pre: 100000})
					for p := start; p < ln; p++ {
						for t := 0; t < nt; t++ {
							for _, f := range []string{"error", "404", "empty", "short", "short1", "cut", "cut-at-end", "flip-point", "flip-checksum"} {
								if ln == 5 && !c.Thorough() && (nt == 2 || f != "error" && f != "404" && f != "flip-point") {
									continue
								}
								ss = append(ss, scen{name: "fault", seq: A[:ln], start: start, points: 61, nt: nt, faults: map[string]string{path(p, t): f}, reject: true})
								if f != "error" && ln == 3 && f != "cut-at-end" {
									// the faulty download stays in the cache directory; a second run must not trust it
									ss = append(ss, scen{name: "rerun after fault", seq: A[:ln], start: start, points: 61, nt: nt, prior: map[string]string{path(p, t): f}, reject: true})
								}
							}
						}
						// this participant's contribution is replaced
						for _, r := range append([]*contribution{A[0], A[4]}, alpha[3:]...) {
							if ln < 4 || p == start && r.valid() && ln == 5 {
								continue
							}
							s := append([]*contribution{}, A[:ln]...)
							s[p] = r
							ss = append(ss, scen{name: "replaced", seq: s, start: start, points: 64, nt: 1})
						}
						// missing participant
						if p > start && p+1 < ln && nt == 1 {
							s := append(append([]*contribution{}, A[:p]...), A[p+1:ln]...)
							ss = append(ss, scen{name: "missing", seq: s, start: start, points: 64, nt: 1})
						}
						// neighbours swapped
						if p+1 < ln && nt == 1 {
							s := append([]*contribution{}, A[:ln]...)
							s[p], s[p+1] = s[p+1], s[p]
							ss = append(ss, scen{name: "swapped", seq: s, start: start, points: 64, nt: 1})
						}
					}
				}
			}
		}
		for _, f := range []string{"error", "404", "empty", "short", "cut"} {
			ss = append(ss, scen{name: "manifest " + f, seq: A[:3], points: 64, nt: 1, faults: map[string]string{"manifest.json": f}, reject: true})
		}
		for _, st := range []int{2, 3, 7, -1} {
			ss = append(ss, scen{name: "start beyond the manifest", seq: A[:3], start: st, points: 64, nt: 1, reject: true})
		}
		ss = append(ss,
			scen{name: "too few points for the commitment check", seq: A[:3], points: 24, nt: 1, reject: true},
			scen{name: "output device full", seq: A[:3], points: 64, nt: 1, out: "/dev/full", reject: true},
			scen{name: "output directory missing", seq: A[:3], points: 64, nt: 1, out: "nowhere/x.srs", reject: true})
		for _, s := range ss {
			for _, x := range s.seq {
				get(x, s.points, s.nt)
			}
		}
		c.Set("scenarios", len(ss))
		c.Par(len(ss), func(i int) {
			s := ss[i]
			dir := filepath.Join(tmp, fmt.Sprint(i))
			www, run := filepath.Join(dir, "www"), filepath.Join(dir, "run")
			os.MkdirAll(www, 0o755)
			os.MkdirAll(run, 0o755)
			defer os.RemoveAll(dir)
			var parts []map[string]any
			for p, x := range s.seq {
				parts = append(parts, map[string]any{"address": fmt.Sprintf("0xABCDEF%02d", p), "position": 10 + p, "startedAt": "2019-10-24T15:00:00.000Z", "completedAt": "2019-10-25T15:00:00.000Z"})
				for t, b := range get(x, s.points, s.nt) {
					f := filepath.Join(www, path(p, t))
					os.MkdirAll(filepath.Dir(f), 0o755)
					os.WriteFile(f, b, 0o644)
				}
			}
			mb, _ := json.Marshal(map[string]any{"name": "main", "numG1Points": s.points, "numG2Points": 1, "participants": parts})
			os.WriteFile(filepath.Join(www, "manifest.json"), mb, 0o644)
			out := "out.srs"
			if s.out != "" {
				out = s.out
			}
			outPath := filepath.Join(run, "out.srs")
			child := func(faults map[string]string) (int, string) {
				fb, _ := json.Marshal(faults)
				cmd := exec.Command(self, "trusted-setup-child", www, run, fmt.Sprint(s.start), out, string(fb))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
				var eb bytes.Buffer
				cmd.Stderr = &eb
				if err := cmd.Start(); err != nil {
					return 70, err.Error()
				}
				timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
				err := cmd.Wait()
				timer.Stop()
				c.State(1)
				if err == nil {
					return 0, ""
				}
				return cmd.ProcessState.ExitCode(), eb.String()
			}
			var names []string
			for _, x := range s.seq {
				names = append(names, x.name)
			}
			var pre []byte
			if s.pre > 0 {
				pre = bytes.Repeat([]byte("old"), s.pre/3)
				os.WriteFile(outPath, pre, 0o644)
			}
			key := caseKey(s.name, strings.Join(names, " "), "start", s.start, "transcripts", s.nt, s.faults, s.prior, s.out)
			ok := !s.reject
			if ok {
				for p := s.start; p < len(s.seq); p++ {
					ok = ok && s.seq[p].valid() && (p == s.start || s.seq[p].follows(s.seq[p-1]))
				}
			}
			if s.prior != nil {
				rc, _ := child(s.prior)
				b, e := os.ReadFile(outPath)
				if rc == 0 || e == nil {
					c.Violate(key, names, "the tool wrote an SRS file (%d bytes, exit %d) although a download was faulty", len(b), rc)
					return
				}
			}
			f := s.faults
			if f == nil {
				f = map[string]string{}
			}
			rc, msg := child(f)
			c.Trace(1)
			c.Trans(int64(len(s.seq)))
			b, err := os.ReadFile(outPath)
			written := err == nil && !bytes.Equal(b, pre)
			if rc == 70 {
				panic("c28 harness: " + msg)
			}
			if !ok {
				c.Count("rejected", 1)
				if rc == 0 {
					c.Violate(key, names, "the tool reports success for a transcript that is not fully verified")
				} else if written {
					c.Violate(key, names, "the tool wrote %d bytes to the SRS file although the transcript is not fully verified", len(b))
				}
				return
			}
			c.Count("accepted", 1)
			if rc != 0 {
				c.Violate(key, names, "the tool rejects a valid transcript: %s", clip(msg))
				return
			}
			last := s.seq[len(s.seq)-1]
			if !bytes.Equal(b, want[fkey{last, s.points, 0}]) {
				c.Violate(key, names, "the SRS file (%d bytes) is not the last contribution's points (%d bytes)", len(b), len(want[fkey{last, s.points, 0}]))
			}
		})
	})
}
