//go:build race

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema/internal/zzsync"
)

func init() { schedMain = exploreSchedules }

// hiddenFiles are those whose locks are hidden from the race detector, as they would order
// nearly everything: what they guard is used under their locks, and is not
// looked at.
var hiddenFiles = []string{"/internal/core/runtime/index.go", "/internal/core/runtime/imports.go", "/cue/token/position.go", "/internal/core/adt/prof.go", "/cue/stats/stats.go"}

type raceLog struct {
	off int64
	n   int
}

// fresh gives the races that were reported since the last call.
func (l *raceLog) fresh() []string {
	n := runtime.RaceErrors()
	if n == l.n {
		return nil
	}
	l.n = n
	files, _ := filepath.Glob(os.Getenv("ZZRACELOG") + ".*")
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil || int64(len(b)) <= l.off {
			continue
		}
		text := string(b[l.off:])
		l.off = int64(len(b))
		for _, r := range strings.Split(text, "WARNING: DATA RACE")[1:] {
			if s := raceSites(r); s != "" {
				out = append(out, s+"\n"+r)
			}
		}
	}
	return out
}

// raceSites names the two accesses of a race by the innermost functions of thema they were
// made for; it is empty for the hidden files.
func raceSites(r string) string {
	var sites []string
	inCUE := 0
	for _, part := range strings.Split(r, "\n\n") {
		head := strings.TrimSpace(part)
		if !strings.Contains(head, " at 0x") || strings.HasPrefix(head, "Goroutine") {
			continue
		}
		lines := strings.Split(head, "\n")[1:]
		site, inner := "", ""
		for i := 0; i+1 < len(lines); i += 2 {
			fn, at := strings.TrimSpace(lines[i]), strings.TrimSpace(lines[i+1])
			if inner == "" && !strings.HasPrefix(fn, "runtime.") {
				inner = at
				if strings.HasPrefix(fn, "cuelang.org/go/") {
					inCUE++
				}
				for _, h := range hiddenFiles {
					if strings.Contains(at, h) {
						return ""
					}
				}
			}
			if site == "" && strings.HasPrefix(fn, "github.com/grafana/thema") && !strings.Contains(fn, "zz") {
				site = strings.TrimPrefix(strings.TrimSuffix(fn, "()"), "github.com/grafana/")
			}
		}
		if site == "" {
			site = "user"
		}
		sites = append(sites, site)
	}
	// what users evaluate outside of thema is not under its lock
	if len(sites) != 2 || sites[0] == "user" || sites[1] == "user" {
		return ""
	}
	sort.Strings(sites)
	if inCUE == 2 && strings.Contains(strings.Join(sites, " "), "thema.NewRuntime") {
		return "" // CUE's builtin packages are shared by all contexts
	}
	return strings.Join(sites, " / ")
}

func exploreSchedules(req schedReq) schedRes {
	var ops []cop
	for _, n := range req.Ops {
		for _, o := range concurrentOps() {
			if o.name == n {
				ops = append(ops, o)
			}
		}
	}
	if len(ops) != len(req.Ops) {
		panic("unknown operation")
	}
	mk := func() *world {
		w := newWorld()
		for _, o := range ops {
			o.prep(w)
		}
		if req.Hot {
			for _, o := range ops {
				o.run(w)()
			}
		}
		w.mu.off = true
		return w
	}
	do := func(w *world, o cop, render *func() string) {
		*render = func() string { return "nothing" }
		*render = o.run(w)
	}
	// builtin packages are made on first use, under one of the hidden locks
	b := cuecontext.New().CompileString("import (\n\"strings\"\n\"list\"\n)\na: strings.MinRunes(1) & \"s\"\nb: list.MaxItems(2) & [1]\n")
	if err := b.Validate(); err != nil {
		panic(err)
	}
	var res schedRes
	var log raceLog
	log.fresh()
	seen := map[string]bool{}
	fail := func(sched []int, sig, f string, args ...any) {
		if !seen[sig] && len(res.Fails) < 20 {
			seen[sig] = true
			res.Fails = append(res.Fails, schedFail{sig, fmt.Sprintf(f, args...), sched})
		}
	}
	var want []string
	stack := [][]int{{}}
	if req.Only != nil {
		stack = [][]int{req.Only}
	}
	for len(stack) > 0 {
		if res.Schedules >= req.Max {
			res.Truncated = true
			break
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		w := mk()
		renders := make([]func() string, len(ops))
		fns := make([]func(), len(ops))
		for i := range ops {
			i := i
			fns[i] = func() { do(w, ops[i], &renders[i]) }
		}
		log.fresh()
		r := zzsync.Run(prefix, fns...)
		res.Schedules++
		res.Steps += len(r.Steps)
		if len(r.Steps) > res.Points {
			res.Points = len(r.Steps)
		}
		var sched []int
		var what []string
		for _, s := range r.Steps {
			sched = append(sched, s.Chosen)
			what = append(what, s.What)
		}
		for _, race := range log.fresh() {
			site, _, _ := strings.Cut(race, "\n")
			fail(sched, "race "+site, "data race: %s", raceText(race))
		}
		if r.Stale {
			res.Stale++
		}
		if r.Deadlock != "" {
			fail(sched, "deadlock", "deadlock: %s after %s", r.Deadlock, strings.Join(what, " "))
			break
		}
		for _, p := range r.Panics {
			first, _, _ := strings.Cut(p, "\n")
			fail(sched, "panic "+first, "panic: %s after %s", p, strings.Join(what, " "))
		}
		if len(r.Panics) == 0 {
			var got []string
			for i := range ops {
				got = append(got, renders[i]())
			}
			if want == nil {
				for i := range ops {
					w := mk()
					var render func() string
					do(w, ops[i], &render)
					want = append(want, render())
				}
				log.fresh()
			}
			for i := range ops {
				if got[i] != want[i] {
					fail(sched, fmt.Sprintf("result %d", i), "operation %s gives\n  %s\nbut alone\n  %s\nafter %s", ops[i].name, got[i], want[i], strings.Join(what, " "))
				}
			}
			res.Sample = fmt.Sprintf("%v: %s => %s", req.Ops, strings.Join(what, " "), strings.Join(got, "; "))
		}
		if req.Only != nil {
			break
		}
		// alternatives from here on
		pre := 0
		for i, s := range r.Steps {
			if i >= len(prefix) {
				for alt := s.Chosen + 1; alt < len(s.Enabled); alt++ {
					cost := pre
					if s.Preempt || (s.Chosen == 0 && i > 0 && s.Enabled[0] == r.Steps[i-1].Enabled[r.Steps[i-1].Chosen]) {
						cost++
					}
					if cost <= req.Bound {
						stack = append(stack, append(append([]int{}, sched[:i]...), alt))
					}
				}
			}
			if s.Preempt {
				pre++
			}
		}
	}
	return res
}

// raceText abridges a report.
func raceText(r string) string {
	var out []string
	n := 0
	for _, l := range strings.Split(r, "\n") {
		if strings.Contains(l, " at 0x") || strings.TrimSpace(l) == "" {
			n = 0
		}
		if n++; n < 12 || strings.Contains(l, "grafana/thema") || strings.Contains(l, "main.") {
			out = append(out, l)
		}
	}
	return tail(strings.Join(out, "\n"), 8000)
}
