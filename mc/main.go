package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"

	"verifmc/checks"
)

func main() {
	if len(os.Args) > 6 && os.Args[1] == "trusted-setup-child" {
		checks.TrustedSetupChild(os.Args[2:])
	}
	if len(os.Args) > 6 && os.Args[1] == "history-child" {
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		checks.HistoryChild(os.Args[2], out)
		os.Exit(0)
	}
	if len(os.Args) > 6 && (os.Args[1] == "trace-child" || os.Args[1] == "compile-child") {
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		if os.Args[1] == "trace-child" {
			checks.TraceChild(os.Args[2], out)
		} else {
			checks.CompileChild(os.Args[2], out)
		}
		os.Exit(0)
	}
	if len(os.Args) > 6 && os.Args[1] == "solve-child" {
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		checks.SolveChild(os.Args[2], out)
		os.Exit(0)
	}
	if len(os.Args) == 3 && (os.Args[1] == "overlay" || os.Args[1] == "nondet-overlay" || os.Args[1] == "bench-overlay") {
		f := checks.WriteOverlay
		if os.Args[1] == "nondet-overlay" {
			f = checks.WriteNondetOverlay
		}
		if os.Args[1] == "bench-overlay" {
			f = checks.WriteBenchOverlay
		}
		if err := f(os.Args[2]); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	if len(os.Args) < 3 {
		var ids []string
		for id := range checks.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: mc <property> quick|thorough;", ids)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	out := os.Stdout
	// the code under test prints to stdout; keep only our lines
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	evid := os.Getenv("MC_EVIDENCE")
	if evid == "" {
		evid = "/verif/evidence"
	}
	known := os.Getenv("MC_KNOWN")
	if known == "" {
		known = "/verif/known_findings.txt"
	}
	if f := os.Getenv("MC_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
		}
	}
	code := checks.RunCheck(os.Args[1], os.Args[2], seed, out, evid, known)
	pprof.StopCPUProfile()
	os.Exit(code)
}
