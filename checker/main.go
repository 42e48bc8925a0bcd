package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"sync/atomic"
	"time"
)

type Rule struct {
	id  string
	run func(p *Prog, r *Report)
}

var rules = map[string]func(p *Prog, r *Report){}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	go watch()
	if f := os.Getenv("CHECK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	repo := "/repo"
	verif := "/verif"
	if v := os.Getenv("CHECK_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("CHECK_VERIF"); v != "" {
		verif = v
	}
	ids := os.Args[1:]
	if len(ids) == 0 {
		for k := range rules {
			fmt.Println(k)
		}
		os.Exit(2)
	}
	start := time.Now()
	p, err := load(repo)
	if err == nil && len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for k := range rules {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	status := 0
	for _, id := range ids {
		if err != nil {
			fmt.Println(err)
			rp := filepath.Join(verif, "evidence", id+".violations.txt")
			os.WriteFile(rp, []byte(err.Error()+"\n"), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			status = 1
			continue
		}
		if s := runOne(p, id, verif, start); s > status {
			status = s
		}
	}
	pprof.StopCPUProfile()
	os.Exit(status)
}

// stopAll ends every analysis as one that exceeded its budget.
var stopAll atomic.Bool

// watch ends the analyses before they take too much time or memory.
func watch() {
	for begin := time.Now(); ; time.Sleep(500 * time.Millisecond) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 12<<30 || time.Since(begin) > 700*time.Second {
			stopAll.Store(true)
			return
		}
	}
}

func runOne(p *Prog, id, verif string, start time.Time) int {
	t0 := time.Now()
	if len(os.Args) == 2 && os.Args[1] != "all" {
		t0 = start
	}
	r := newReport(id, p)
	f := rules[id]
	if f == nil {
		r.fail("no-such-rule", id, "?", "no rule is registered for this property")
		return r.finish(verif, t0)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.fail("analysis-failed", id, "?", "the analysis itself failed: %v\n%s", e, debug.Stack())
			}
		}()
		f(p, r)
	}()
	return r.finish(verif, t0)
}
