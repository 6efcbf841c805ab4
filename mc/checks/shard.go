package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
)

type shardOut struct {
	States, Trans, Traces int64
	Counts                map[string]int64
	Viol                  []violation
}

// shard reports which part of the work this process does; n is 0 in the parent.
func shard() (i, n int) {
	fmt.Sscanf(os.Getenv("MC_SHARD"), "%d/%d", &i, &n)
	return
}

// runShards executes the check in n processes and merges what they found.
func (c *Ctx) runShards(n int) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	tmp, err := os.MkdirTemp("", "shards")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var wg sync.WaitGroup
	outs := make([]string, n)
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := filepath.Join(tmp, fmt.Sprint(i))
			cmd := exec.Command(self, c.ID, c.Tier)
			cmd.Env = append(os.Environ(), fmt.Sprintf("MC_SHARD=%d/%d", i, n), "MC_SHARDOUT="+f, "GOMAXPROCS=2", "MC_EVIDENCE="+tmp)
			b, err := cmd.CombinedOutput()
			outs[i], errs[i] = string(b), err
		}()
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprint(i)))
		var s shardOut
		if err != nil || json.Unmarshal(b, &s) != nil {
			t := outs[i]
			if len(t) > 3000 {
				t = t[:3000]
			}
			panic(fmt.Sprintf("part %d gave no result: %v %s", i, errs[i], t))
		}
		c.State(s.States)
		c.Trans(s.Trans)
		c.Trace(s.Traces)
		for k, v := range s.Counts {
			c.Count(k, v)
		}
		for _, v := range s.Viol {
			c.Violate(v.Key, v.Detail, "%s", v.Desc)
		}
	}
}

func (c *Ctx) writeShard() bool {
	f := os.Getenv("MC_SHARDOUT")
	if f == "" {
		return false
	}
	s := shardOut{States: c.states, Trans: c.trans, Traces: c.traces, Counts: map[string]int64{}, Viol: c.viol}
	for k, v := range c.extra {
		if n, ok := v.(int64); ok {
			s.Counts[k] = n
		}
	}
	b, _ := json.Marshal(s)
	os.WriteFile(f, b, 0o644)
	return true
}
