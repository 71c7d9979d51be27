// Command zzverif is the bounded model checker for grafana/thema. It is built
// from /verif/harness as a virtual package inside /repo (go build -overlay), so
// it always drives the code in /repo's working tree.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
)

// Prop is one property checker. Gen enumerates the complete bounded space.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Gen         func(g *Gen)
	// Serial properties are run in a single worker.
	Serial bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Fail is one disagreement between implementation and oracle.
type Fail struct {
	Key    string `json:"key"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// Result is what one worker reports.
type Result struct {
	Cases       int            `json:"cases"`
	Enumerated  int            `json:"enumerated"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Validated   int            `json:"validated"`
	Nontrivial  int            `json:"nontrivial"`
	Outcomes    map[string]int `json:"outcomes"`
	Samples     []string       `json:"samples"`
	Fails       []Fail         `json:"fails"`
	FailCount   int            `json:"fail_count"`
	Exhaustive  bool           `json:"exhaustive"`
	Slowest     float64        `json:"slowest"`
}

// Gen drives the enumeration in a worker.
type Gen struct {
	Tier     string
	Seed     int
	idx, n   int
	count    int
	only     string
	deadline time.Time
	res      *Result
	rt       *thema.Runtime
	rtUses   int
	states   map[uint64]struct{}
	keys     map[uint64]struct{}
	prog     *os.File
	stop     bool
	skip     map[string]bool
}

func (g *Gen) Thorough() bool { return g.Tier == "thorough" }

// T is the context of one case.
type T struct {
	g   *Gen
	key string
	rt  *thema.Runtime
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Case emits one case of the space; f explores it against the real code.
func (g *Gen) Case(key string, f func(t *T)) {
	if g.stop {
		return
	}
	i := g.count
	g.count++
	h := hash(key)
	if _, dup := g.keys[h]; dup {
		fmt.Fprintln(os.Stderr, "harness error: duplicate case key:", key)
		os.Exit(3)
	}
	g.keys[h] = struct{}{}
	if g.only != "" {
		if key != g.only {
			return
		}
	} else if i%g.n != g.idx || g.skip[key] {
		return
	}
	if time.Now().After(g.deadline) {
		g.stop = true
		g.res.Exhaustive = false
		return
	}
	if g.prog != nil {
		g.prog.Truncate(0)
		g.prog.WriteAt([]byte(key), 0)
	}
	g.res.Cases++
	start := time.Now()
	defer func() {
		if d := time.Since(start).Seconds(); d > g.res.Slowest {
			g.res.Slowest = d
		}
	}()
	t := &T{g: g, key: key}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			t.Fail(fmt.Sprintf("panic: %.120s", fmt.Sprint(r)), "unexpected panic: %v\n%s", r, trimStack(st))
		}
	}()
	f(t)
}

type stopCase struct{}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// RT returns a Runtime; contexts are renewed regularly.
func (t *T) RT() *thema.Runtime {
	if t.rt != nil {
		return t.rt
	}
	g := t.g
	if g.rt == nil || g.rtUses >= 40 {
		g.rt = thema.NewRuntime(cuecontext.New())
		g.rtUses = 0
	}
	g.rtUses++
	t.rt = g.rt
	return t.rt
}

// FreshRT forces a new context for this case.
func (t *T) FreshRT() *thema.Runtime {
	t.rt = thema.NewRuntime(cuecontext.New())
	return t.rt
}

// State counts a distinct explored state.
func (t *T) State(parts ...string) {
	h := hash(t.key + "\x00" + strings.Join(parts, "\x00"))
	if _, ok := t.g.states[h]; !ok {
		t.g.states[h] = struct{}{}
		t.g.res.States++
	}
}

// Step counts one executed operation of the implementation.
func (t *T) Step() { t.g.res.Transitions++ }

// Checked counts one comparison with the reference model.
func (t *T) Checked(outcome string, nontrivial bool) {
	t.g.res.Validated++
	if nontrivial {
		t.g.res.Nontrivial++
	}
	t.g.res.Outcomes[outcome]++
}

// Sample offers a written-out case for the evidence.
func (t *T) Sample(format string, args ...any) {
	r := t.g.res
	if len(r.Samples) < 2 && int(hash(t.key)%7) == t.g.Seed%7 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	} else if len(r.Samples) == 0 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

// Fail records a disagreement. sig identifies the class of failing input.
func (t *T) Fail(sig, format string, args ...any) {
	r := t.g.res
	r.FailCount++
	full := t.key + " :: " + sig
	if isKnown(full) {
		for _, f := range r.Fails {
			if f.Sig == full {
				return
			}
		}
		r.Fails = append(r.Fails, Fail{Key: t.key, Sig: full, Detail: "known"})
		return
	}
	nk := 0
	for _, f := range r.Fails {
		if f.Detail != "known" {
			nk++
		}
	}
	max := 20
	if os.Getenv("VERIF_MAXFAIL") != "" {
		max, _ = strconv.Atoi(os.Getenv("VERIF_MAXFAIL"))
	}
	if nk < max {
		r.Fails = append(r.Fails, Fail{Key: t.key, Sig: full, Detail: fmt.Sprintf(format, args...)})
	}
	if nk >= max && os.Getenv("VERIF_MAXFAIL") == "" || os.Getenv("VERIF_STOP") != "" {
		// enough: stop this worker's exploration
		t.g.stop = true
		r.Exhaustive = false
	}
}

// Fatal records a disagreement and ends the case.
func (t *T) Fatal(sig, format string, args ...any) {
	t.Fail(sig, format, args...)
	panic(stopCase{})
}

// ---- known findings

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Sig      string `json:"sig,omitempty"`
	// Sigs lists the failing inputs of one defect.
	Sigs   []string `json:"sigs,omitempty"`
	Commit string   `json:"commit,omitempty"`
	What   string   `json:"what"`
}

var known map[string]finding
var curProp string

func loadKnown(prop string) {
	curProp = prop
	known = map[string]finding{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(line)) == 0 {
			continue
		}
		var f finding
		if err := json.Unmarshal(line, &f); err != nil {
			panic(fmt.Sprintf("known_findings.jsonl: %s: %s", err, line))
		}
		if f.Property == prop && f.Status == "known" {
			if f.Sig != "" {
				known[f.Sig] = f
			}
			for _, s := range f.Sigs {
				known[s] = f
			}
		}
	}
}

func isKnown(sig string) bool { _, ok := known[sig]; return ok }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- main

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: zzverif check|worker ID ...")
		os.Exit(2)
	}
	if os.Args[1] == "sched" {
		var req schedReq
		if err := json.Unmarshal([]byte(os.Args[2]), &req); err != nil || schedMain == nil {
			fmt.Fprintln(os.Stderr, "sched:", err)
			os.Exit(3)
		}
		b, _ := json.Marshal(schedMain(req))
		os.Stdout.Write(b)
		return
	}
	p := props[os.Args[2]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	}
	loadKnown(p.ID)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	switch os.Args[1] {
	case "worker":
		// worker ID idx n deadline-unix resfile progfile skipfile [only]
		idx, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		dl, _ := strconv.ParseInt(os.Args[5], 10, 64)
		g := &Gen{
			Tier: tier, Seed: seed, idx: idx, n: n,
			deadline: time.Unix(dl, 0),
			res:      &Result{Outcomes: map[string]int{}, Exhaustive: true},
			states:   map[uint64]struct{}{}, keys: map[uint64]struct{}{},
			skip: map[string]bool{},
		}
		g.prog, _ = os.Create(os.Args[7])
		if b, err := os.ReadFile(os.Args[8]); err == nil {
			for _, l := range strings.Split(string(b), "\x1e") {
				if l != "" {
					g.skip[l] = true
				}
			}
		}
		if len(os.Args) > 9 {
			g.only = os.Args[9]
		}
		p.Gen(g)
		g.res.Enumerated = g.count
		b, _ := json.Marshal(g.res)
		if err := os.WriteFile(os.Args[6], b, 0o644); err != nil {
			panic(err)
		}
	case "check":
		os.Exit(check(p, tier, seed))
	case "replay":
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			panic(err)
		}
		var f Fail
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		dir, _ := os.MkdirTemp("", "zzv")
		defer os.RemoveAll(dir)
		r, crash := runWorker(p, dir, 0, 1, time.Now().Add(10*time.Minute), nil, f.Key)
		if crash != nil {
			fmt.Println("CRASH", crash.Detail)
			os.Exit(1)
		}
		for _, f := range r.Fails {
			fmt.Println(f.Sig+"\n"+f.Detail, "\n")
		}
		if len(r.Fails) > 0 {
			os.Exit(1)
		}
		fmt.Println("no failure")
	}
}

// runWorker runs one shard in a child process. A crash of the child (fatal
// runtime error, deadlock) is reported as a failure of the case it was running.
func runWorker(p *Prop, dir string, idx, n int, deadline time.Time, skip []string, only string) (*Result, *Fail) {
	tag := fmt.Sprintf("%d-%d-%d", idx, n, time.Now().UnixNano())
	resf := filepath.Join(dir, "res-"+tag)
	progf := filepath.Join(dir, "prog-"+tag)
	skipf := filepath.Join(dir, "skip-"+tag)
	os.WriteFile(skipf, []byte(strings.Join(skip, "\x1e")), 0o644)
	args := []string{"worker", p.ID, strconv.Itoa(idx), strconv.Itoa(n), strconv.FormatInt(deadline.Unix(), 10), resf, progf, skipf}
	if only != "" {
		args = append(args, only)
	}
	cmd := exec.Command(os.Args[0], args...)
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 20}
	cmd.Stdout = os.Stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+gomaxprocs(p), "GOMEMLIMIT=3GiB")
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	go func() { done <- cmd.Wait() }()
	var err error
	last, since := "", time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-tick.C:
		}
		key, _ := os.ReadFile(progf)
		if string(key) != last {
			last, since = string(key), time.Now()
		}
		if last != "" && time.Since(since) > caseLimit() {
			cmd.Process.Kill()
			<-done
			return nil, &Fail{Key: last, Sig: last + hangSig, Detail: fmt.Sprintf("the case has not terminated after %s", caseLimit())}
		}
	}
	if b, rerr := os.ReadFile(resf); rerr == nil && err == nil {
		var r Result
		if jerr := json.Unmarshal(b, &r); jerr == nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				os.Stderr.Write(stderr.Bytes())
			}
			return &r, nil
		}
	}
	key, _ := os.ReadFile(progf)
	if len(key) == 0 || cmd.ProcessState.ExitCode() == 3 {
		fmt.Fprintln(os.Stderr, stderr.String())
		fmt.Fprintln(os.Stderr, "worker failed outside any case:", err)
		os.Exit(2)
	}
	se := stderr.String()
	first := strings.SplitN(strings.TrimSpace(se), "\n", 2)[0]
	return nil, &Fail{Key: string(key), Sig: string(key) + " :: crash: " + first, Detail: "process crashed: " + err.Error() + "\n" + trimStack(se)}
}

const hangSig = " :: does not terminate"

// caseLimit is far above what any case takes.
func caseLimit() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 15 * time.Minute
	}
	return 200 * time.Second
}

func gomaxprocs(p *Prop) string {
	if p.Serial {
		return "8"
	}
	return "2"
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(b)
	}
	return len(b), nil
}

func check(p *Prop, tier string, seed int) int {
	start := time.Now()
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 45 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := start.Add(budget)
	dir, err := os.MkdirTemp("", "zzv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if p.Serial {
		n = 1
	}
	results := make([]*Result, n)
	var mu sync.Mutex
	var fails []Fail
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var skip []string
			for attempt := 0; attempt < 4; attempt++ {
				r, crash := runWorker(p, dir, i, n, deadline, skip, "")
				if crash == nil {
					results[i] = r
					return
				}
				mu.Lock()
				fails = append(fails, *crash)
				mu.Unlock()
				skip = append(skip, crash.Key)
				if strings.HasSuffix(crash.Sig, hangSig) {
					return
				}
			}
		}(i)
	}
	wg.Wait()

	tot := Result{Outcomes: map[string]int{}, Exhaustive: true}
	for _, r := range results {
		if r == nil {
			tot.Exhaustive = false
			continue
		}
		tot.Cases += r.Cases
		if r.Enumerated > tot.Enumerated {
			tot.Enumerated = r.Enumerated
		}
		if r.Slowest > tot.Slowest {
			tot.Slowest = r.Slowest
		}
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Validated += r.Validated
		tot.Nontrivial += r.Nontrivial
		tot.FailCount += r.FailCount
		tot.Exhaustive = tot.Exhaustive && r.Exhaustive
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		if len(tot.Samples) < 8 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		fails = append(fails, r.Fails...)
	}
	if tot.Cases < tot.Enumerated {
		tot.Exhaustive = false
	}
	sort.SliceStable(fails, func(i, j int) bool {
		if hi, hj := strings.HasSuffix(fails[i].Sig, hangSig), strings.HasSuffix(fails[j].Sig, hangSig); hi != hj {
			return hj
		}
		return len(fails[i].Key) < len(fails[j].Key)
	})

	// Split into known findings and new violations.
	seenKnown := map[string]bool{}
	var fresh []Fail
	for _, f := range fails {
		if isKnown(f.Sig) {
			seenKnown[f.Sig] = true
			continue
		}
		fresh = append(fresh, f)
	}
	var kn []string
	for s := range seenKnown {
		kn = append(kn, s)
	}
	sort.Strings(kn)
	printed := map[string]bool{}
	for _, s := range kn {
		line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", p.ID, known[s].What)
		if !printed[line] {
			printed[line] = true
			fmt.Println(line)
		}
	}

	if os.Getenv("VERIF_DEBUG") != "" {
		for _, f := range fresh {
			fmt.Fprintf(os.Stderr, "---- %s\n%s\n", f.Sig, f.Detail)
		}
	}

	// Every violation must reproduce in a process of its own.
	violations := 0
	var unrepro []string
	tried := map[string]bool{}
	hung := false
	for _, f := range fresh {
		if violations >= 3 || len(tried) >= 8 {
			break
		}
		hang := strings.HasSuffix(f.Sig, hangSig)
		if tried[f.Key] || hang && hung {
			continue
		}
		hung = hung || hang
		tried[f.Key] = true
		repro := 0
		for k := 0; k < 5 && repro < 2; k++ {
			r, crash := runWorker(p, dir, 0, 1, time.Now().Add(5*time.Minute), nil, f.Key)
			if crash != nil {
				repro++
				if strings.HasSuffix(crash.Sig, hangSig) {
					repro++
				}
				continue
			}
			for _, rf := range r.Fails {
				if !isKnown(rf.Sig) {
					repro++
					break
				}
			}
		}
		if repro == 0 {
			unrepro = append(unrepro, f.Sig)
			continue
		}
		violations++
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%016x.json", p.ID, hash(f.Key)))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  case: %.400s\n  %.1500s\n", f.Sig, f.Detail)
	}

	lvl := "model_checking"
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": lvl,
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
		"assumptions": append([]string{
			"the space is complete within the stated alphabet and bounds; nothing is claimed outside them",
			"cuelang.org/go (pinned) evaluates the reference expressions as its specification says",
		}, p.Assumptions...),
		"coverage": map[string]any{
			"states": tot.States, "transitions": tot.Transitions,
			"traces_validated_against_impl": tot.Validated,
			"evaluations":                   tot.Validated,
			"distinct_nontrivial":           tot.Nontrivial,
			"rule":                          p.Rule,
			"samples":                       tot.Samples,
			"cases_enumerated":              tot.Enumerated,
			"cases_run":                     tot.Cases,
			"slowest_case_s":                tot.Slowest,
			"distinct_outcomes":             len(tot.Outcomes),
			"outcomes":                      topOutcomes(tot.Outcomes),
			"exhaustive":                    tot.Exhaustive,
			"known_findings_seen":           len(kn),
			"unreproduced":                  unrepro,
		},
	}
	ed := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(ed, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(ed, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%s tier=%s cases=%d/%d states=%d transitions=%d validated=%d outcomes=%d exhaustive=%v violations=%d known=%d wall=%.1fs\n",
		p.ID, tier, tot.Cases, tot.Enumerated, tot.States, tot.Transitions, tot.Validated, len(tot.Outcomes), tot.Exhaustive, violations, len(kn), time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func topOutcomes(m map[string]int) map[string]int {
	if len(m) <= 40 {
		return m
	}
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	out := map[string]int{}
	for _, e := range l[:40] {
		out[e.k] = e.v
	}
	return out
}
