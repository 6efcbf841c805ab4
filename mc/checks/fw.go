// Package checks holds one exploration per property.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifmc/eng"
)

// Ctx collects what a check covered.
type Ctx struct {
	ID    string
	Tier  string
	Seed  int
	Out   *os.File // the real stdout
	Evid  string   // evidence directory
	start time.Time

	mu      sync.Mutex
	states  int64
	trans   int64
	traces  int64
	samples []any
	extra   map[string]any
	assume  []string
	viol    []violation
	nviol   int
	known   []knownFinding
	hit     map[string]bool
	seen    map[string]bool
	Exh     bool
}

type violation struct {
	Key    string
	Desc   string
	Detail any
	File   string
}

type knownFinding struct{ prop, key, text string }

// Check is a registered property check.
type Check struct {
	Level string
	Run   func(c *Ctx)
}

// Registry of checks.
var Registry = map[string]Check{}

func reg(id string, f func(c *Ctx)) { Registry[id] = Check{Level: "model_checking", Run: f} }

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

func (c *Ctx) State(n int64) { atomic.AddInt64(&c.states, n) }
func (c *Ctx) Trans(n int64) { atomic.AddInt64(&c.trans, n) }
func (c *Ctx) Trace(n int64) { atomic.AddInt64(&c.traces, n) }

// Count adds to a named coverage counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.extra == nil {
		c.extra = map[string]any{}
	}
	v, _ := c.extra[name].(int64)
	c.extra[name] = v + n
}

// Set records a named coverage value.
func (c *Ctx) Set(name string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.extra == nil {
		c.extra = map[string]any{}
	}
	c.extra[name] = v
}

// Assume records an assumption.
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Sample records an actual case (the first few are kept).
func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, s)
	}
}

// Violate reports a violation; key identifies the failing case.
func (c *Ctx) Violate(key string, detail any, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.prop == c.ID && k.key == key {
			if !c.hit[k.key] {
				c.hit[k.key] = true
				fmt.Fprintf(c.Out, "KNOWN-FINDING: property=%s %s\n", c.ID, k.text)
			}
			return
		}
	}
	c.nviol++
	if c.seen[key] || len(c.viol) >= 10 {
		return
	}
	c.seen[key] = true
	v := violation{Key: key, Desc: fmt.Sprintf(format, a...), Detail: detail}
	dir := filepath.Join(c.Evid, "replays")
	os.MkdirAll(dir, 0o755)
	v.File = filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, len(c.viol)+1))
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.ID, "case": key, "what": v.Desc, "detail": detail,
		"reproduce": fmt.Sprintf("bash /verif/run.sh %s %s   (the exploration is deterministic)", c.ID, c.Tier),
	}, "", " ")
	os.WriteFile(v.File, b, 0o644)
	c.viol = append(c.viol, v)
	fmt.Fprintf(c.Out, "VIOLATION property=%s replay=%s\n  %s: %s\n", c.ID, v.File, key, v.Desc)
}

// Enough reports that further exploration adds nothing (violations found).
func (c *Ctx) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 5
}

// Enough0 reports that some violation was found.
func (c *Ctx) Enough0() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) > 0
}

// Par runs f(0..n-1) on all cores.
func (c *Ctx) Par(n int, f func(i int)) { c.ParN(runtime.NumCPU(), n, f) }

// ParN runs f on w workers.
func (c *Ctx) ParN(w, n int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Enough() {
					return
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							buf := make([]byte, 1<<14)
							buf = buf[:runtime.Stack(buf, false)]
							c.Violate(fmt.Sprintf("panic:%v", p), string(buf), "unexpected panic outside a circuit run: %v", p)
						}
					}()
					f(i)
				}()
			}
		}()
	}
	wg.Wait()
}

// Account adds an execution tree to the counters.
func (c *Ctx) Account(r eng.Result) {
	c.State(int64(1 + r.NLanes))
	c.Trans(r.Ops + r.Asserts + int64(r.Hints) + r.Forks)
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C01 key=<key> :: text
		rest := strings.TrimPrefix(l, "known: ")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		head, text := rest[:i], rest[i+4:]
		var k knownFinding
		k.text = text
		if j := strings.Index(head, " key="); j >= 0 {
			k.prop = strings.TrimPrefix(head[:j], "property=")
			k.key = head[j+5:]
			out = append(out, k)
		}
	}
	return out
}

// RunCheck runs one check and writes its evidence; returns the exit code.
func RunCheck(id, tier string, seed int, out *os.File, evid, known string) int {
	ck, ok := Registry[id]
	if !ok {
		fmt.Fprintln(out, "unknown property", id)
		return 2
	}
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Out: out, Evid: evid, start: time.Now(), known: loadKnown(known), hit: map[string]bool{}, seen: map[string]bool{}, Exh: true}
	func() {
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, false)]
				c.Violate(fmt.Sprintf("panic:%v", p), string(buf), "unexpected panic: %v", p)
			}
		}()
		ck.Run(c)
	}()
	if c.writeShard() {
		return 0
	}
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = c.states, c.trans, c.traces
	cov["samples"] = c.samples
	cov["exhaustive"] = c.Exh
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": c.nviol, "assumptions": c.assume,
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evid, 0o755)
	if err := os.WriteFile(filepath.Join(evid, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(out, "cannot write evidence:", err)
		return 2
	}
	var ks []string
	for k := range c.extra {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Fprintf(out, "%s %s: states=%d transitions=%d traces=%d violations=%d %.1fs", id, tier, c.states, c.trans, c.traces, c.nviol, time.Since(c.start).Seconds())
	for _, k := range ks {
		fmt.Fprintf(out, " %s=%v", k, c.extra[k])
	}
	fmt.Fprintln(out)
	if c.nviol > 0 {
		return 1
	}
	return 0
}
