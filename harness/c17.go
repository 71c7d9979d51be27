package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	"github.com/grafana/thema/vmux"
)

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "a case is a set of two or three public operations (binding, validation, translation, hydration, typed access, muxes, navigation) that share a runtime, lineages, data and instances which nothing has evaluated yet; " +
			"its executions are all schedules at lock operations within the preemption bound, each on fresh state, in a process of its own under the race detector; " +
			"every execution is checked for data races, deadlock and panics, and each operation's complete result is compared with that of the operation alone; non-trivial: at least two schedules",
		Gen: genC17,
	})
}

// cop is an operation of a thread: run is the operation, what it returns renders the
// result once all threads have ended.
type cop struct {
	name string
	// prep makes what the operation shares with others
	prep func(w *world)
	run  func(w *world) func() string
}

// linR has what CUE evaluates lazily: definitions, disjunctions of structs, defaults
// at depth, maps, imported constraints, and a lens with lacunas.
const linR = `
import (
	"strings"
	"list"
)

lin: {
	name: "linr"
	schemas: [
		{version: [0, 0], schema: {
			#N: {x: string, y: *"q" | string}
			a: #N
			m: {k?: #N, w: *{v: *7 | int} | string}
			u: *{t: "p", p: *1 | int} | {t: "r", r: string}
			l: [...int]
			o?: {z: *3 | int64}
		}},
		{version: [0, 1], schema: {
			#N: {x: string, y: *"q" | string}
			a: #N
			m: {k?: #N, w: *{v: *7 | int} | string}
			u: *{t: "p", p: *1 | int} | {t: "r", r: string}
			l: [...int]
			o?: {z: *3 | int64}
			p?: {z: *4 | int64}
		}},
		{version: [1, 0], schema: {
			#N: {x: strings.MinRunes(1), y: *"q" | string}
			b: #N
			e: *"one" | "two"
			l: [...int64] & list.MaxItems(4)
			o?: {z: *3 | int64}
		}, examples: {one: {b: x: "e", l: [1]}}},
	]
	lenses: [
		{from: [0, 1], to: [0, 0], input: _, result: {a: input.a, m: input.m, u: input.u, l: input.l}},
		{from: [1, 0], to: [0, 1], input: _, result: {a: input.b, m: {k: input.b}, l: input.l}},
		{from: [0, 1], to: [1, 0], input: _, result: {b: input.a, l: input.l}, lacunas: [if input.u.t == "p" {
			message: "p is \(input.u.p)"
			type: {name: "Placeholder", id: 1}
			sourceFields: [{path: "u.p", value: input.u.p}]
			targetFields: []
		}]},
	]
}
`

type rN struct {
	X string `json:"x"`
	Y string `json:"y"`
}

type rT struct {
	B rN      `json:"b"`
	E string  `json:"e"`
	L []int64 `json:"l"`
	O *struct {
		Z int64 `json:"z"`
	} `json:"o,omitempty"`
}

func (w *world) R() thema.Lineage {
	return w.get("R", func() (thema.Lineage, error) { return bindFile(w.rt, linR) })
}

// O is A on another runtime.
func (w *world) O() thema.Lineage {
	return w.get("O", func() (thema.Lineage, error) { return bindText(thema.NewRuntime(cuecontext.New()), linA) })
}

func bindFile(rt *thema.Runtime, text string) (thema.Lineage, error) {
	return thema.BindLineage(rt.Context().CompileString(text).LookupPath(cue.ParsePath("lin")), rt)
}

func (w *world) datum(js string) cue.Value {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.data == nil {
		w.data = map[string]cue.Value{}
	}
	v, ok := w.data[js]
	if !ok {
		v = w.rt.Context().CompileString(js)
		w.data[js] = v
	}
	return v
}

func concurrentOps() []cop {
	lin := func(w *world, n string) thema.Lineage {
		return map[string]func() thema.Lineage{"A": w.A, "B": w.B, "F": w.F, "G": w.G, "R": w.R}[n]()
	}
	show := func(i *thema.Instance, lac thema.TranslationLacunas, err error) func() string {
		return func() string { return instText(i, lac, err) }
	}
	showT := func(v any, err error) func() string {
		return func() string { return goJSON(v) + errText(err) }
	}
	bind := func(text string) func(w *world) func() string {
		return func(w *world) func() string {
			l, err := bindText(w.rt, text)
			return func() string { return linText(l, err) }
		}
	}
	needs := func(ns ...string) func(w *world) {
		return func(w *world) {
			for _, n := range ns {
				lin(w, n)
			}
		}
	}
	val := func(name, l string, v thema.SyntacticVersion, js string) cop {
		return cop{name, needs(l), func(w *world) func() string {
			i, err := thema.SchemaP(lin(w, l), v).Validate(w.rt.Context().CompileString(js))
			return show(i, nil, err)
		}}
	}
	valShared := func(name, l string, v thema.SyntacticVersion, js string) cop {
		return cop{name, func(w *world) { lin(w, l); w.datum(js) }, func(w *world) func() string {
			i, err := thema.SchemaP(lin(w, l), v).Validate(w.datum(js))
			return show(i, nil, err)
		}}
	}
	inst := func(name, l string, v thema.SyntacticVersion, js string, f func(w *world, i *thema.Instance) func() string) cop {
		return cop{name, func(w *world) { w.inst(l, v, js) }, func(w *world) func() string { return f(w, w.inst(l, v, js)) }}
	}
	tr := func(name, l string, v thema.SyntacticVersion, js string, to thema.SyntacticVersion) cop {
		return inst(name, l, v, js, func(w *world, i *thema.Instance) func() string { return show(i.Translate(to)) })
	}
	v00, v01, v10 := thema.SV(0, 0), thema.SV(0, 1), thema.SV(1, 0)
	return []cop{
		{"bind", func(w *world) {}, bind(linA)},
		{"bindBad", func(w *world) {}, bind(linBad["compat"])},
		{"bindGo", func(w *world) {}, func(w *world) func() string {
			l, err := bindGo(w.rt, true)
			return func() string { return linText(l, err) }
		}},
		val("valid", "A", v00, `{"k":"s"}`),
		val("validNew", "A", v10, `{"k":"s","l":["a","b"]}`),
		val("invalid", "A", v00, `{"k":1}`),
		val("invalidExtra", "A", v10, `{"k":"s","zzz":1}`),
		val("validOther", "B", v01, `{"k":"s","o":"p"}`),
		valShared("validShared", "A", v10, `{"k":"s","d":3}`),
		valShared("invalidShared", "A", v00, `{"k":"s","d":"p"}`),
		{"validateAny", needs("A"), func(w *world) func() string {
			return show(w.A().ValidateAny(w.rt.Context().CompileString(`{"k":"s","o":1}`)), nil, nil)
		}},
		tr("translate", "A", v00, `{"k":"s"}`, v10),
		tr("translateMinor", "A", v00, `{"k":"s"}`, v01),
		tr("translateBack", "A", v10, `{"k":"s"}`, v00),
		tr("translateFault", "F", v00, `{"k":"bad"}`, v10),
		tr("translateGo", "G", v00, `{"k":"s"}`, v10),
		tr("translateGoFault", "G", v00, `{"k":"bad"}`, v10),
		inst("successor", "A", v00, `{"k":"s"}`, func(w *world, i *thema.Instance) func() string { return show(i.AsSuccessor()) }),
		inst("predecessor", "A", v10, `{"k":"s"}`, func(w *world, i *thema.Instance) func() string { return show(i.AsPredecessor()) }),
		inst("hydrate", "A", v10, `{"k":"s"}`, func(w *world, i *thema.Instance) func() string { return show(i.Hydrate(), nil, nil) }),
		inst("dehydrate", "A", v10, `{"k":"s","d":5,"l":["x"]}`, func(w *world, i *thema.Instance) func() string { return show(i.Dehydrate(), nil, nil) }),
		{"bindType", needs("A"), func(w *world) func() string {
			t, err := thema.BindType[*opT](w.A().Latest(), &opT{})
			return func() string {
				if err != nil {
					return errText(err)
				}
				return goJSON(t.NewT())
			}
		}},
		{"bindTypeBad", needs("A"), func(w *world) func() string {
			_, err := thema.BindType[*sX](w.A().Latest(), &sX{})
			return func() string { return errText(err) }
		}},
		{"assignable", needs("A"), func(w *world) func() string {
			err := thema.AssignableTo(w.A().First(), &opT{})
			return func() string { return errText(err) }
		}},
		{"newT", func(w *world) { w.ts() }, func(w *world) func() string {
			v := w.ts().NewT()
			r := goJSON(v)
			v.K = "dirty"
			for i := range v.L {
				v.L[i] = "dirty"
			}
			return func() string { return r }
		}},
		{"typed", func(w *world) { w.ts() }, func(w *world) func() string {
			ti, err := w.ts().ValidateTyped(w.rt.Context().CompileString(`{"k":"s"}`))
			if err != nil {
				return func() string { return errText(err) }
			}
			return showT(ti.Value())
		}},
		{"typedShared", func(w *world) { w.tinst() }, func(w *world) func() string {
			return showT(w.tinst().Value())
		}},
		{"navigate", needs("A"), func(w *world) func() string {
			l := w.A()
			var out []string
			for s := l.First(); s != nil; s = s.Successor() {
				out = append(out, s.Version().String()+"/"+s.LatestInMajor().Version().String())
			}
			_, err := l.Schema(thema.SV(7, 7))
			return func() string { return strings.Join(out, ",") + errText(err) }
		}},
		{"examples", needs("A"), func(w *world) func() string {
			ex := w.A().Latest().Examples()
			return func() string {
				var out []string
				for n, i := range ex {
					out = append(out, n+"="+valueOf(i.Underlying()))
				}
				return strings.Join(out, ",")
			}
		}},
		{"appendOnly", needs("A", "B"), func(w *world) func() string {
			e1, e2 := thema.IsAppendOnly(w.A(), w.A()), thema.IsAppendOnly(w.A(), w.B())
			return func() string { return errText(e1) + errText(e2) }
		}},
		{"appendOther", func(w *world) { w.A(); w.O() }, func(w *world) func() string {
			err := thema.IsAppendOnly(w.A(), w.O())
			return func() string { return errText(err) }
		}},
		{"appendOtherBack", func(w *world) { w.A(); w.O() }, func(w *world) func() string {
			err := thema.IsAppendOnly(w.O(), w.A())
			return func() string { return errText(err) }
		}},
		{"mux", needs("A"), func(w *world) func() string {
			return show(vmux.NewUntypedMux(w.A().Latest(), vmux.NewJSONCodec("x"))([]byte(`{"k":"s","o":3}`)))
		}},
		{"muxInvalid", needs("A"), func(w *world) func() string {
			return show(vmux.NewUntypedMux(w.A().First(), vmux.NewJSONCodec("x"))([]byte(`{"nope":3}`)))
		}},
		{"muxValue", func(w *world) { w.ts() }, func(w *world) func() string {
			v, lac, err := vmux.NewValueMux[*opT](w.ts(), vmux.NewYAMLCodec("x"))([]byte("k: s\n"))
			return func() string { return fmt.Sprint(goJSON(v), lacCount(lac), errText(err)) }
		}},
		{"muxBytes", needs("A"), func(w *world) func() string {
			b, lac, err := vmux.NewByteMux(w.A().Latest(), vmux.NewJSONCodec("x"))([]byte(`{"k":"s"}`))
			return func() string { return fmt.Sprint(string(b), lacCount(lac), errText(err)) }
		}},
		{"bindR", func(w *world) {}, func(w *world) func() string {
			l, err := bindFile(w.rt, linR)
			return func() string { return linText(l, err) }
		}},
		val("validR", "R", v00, `{"a":{"x":"s"},"m":{"k":{"x":"s","y":"q"}},"l":[1],"u":{"t":"r","r":"s"}}`),
		val("invalidR", "R", v10, `{"b":{"x":""},"l":[1,2,3,4,5],"o":{"z":"s"}}`),
		valShared("sharedR", "R", v10, `{"b":{"x":"s","y":"q"},"l":[],"o":{}}`),
		tr("translateR", "R", v00, `{"a":{"x":"s"},"m":{},"l":[1]}`, v10),
		tr("translateBackR", "R", v10, `{"b":{"x":"s"},"l":[3]}`, v00),
		inst("hydrateR", "R", v00, `{"a":{"x":"s"},"m":{},"l":[1]}`, func(w *world, i *thema.Instance) func() string { return show(i.Hydrate(), nil, nil) }),
		inst("dehydrateR", "R", v10, `{"b":{"x":"s","y":"q"},"e":"one","l":[1],"o":{"z":3}}`, func(w *world, i *thema.Instance) func() string { return show(i.Dehydrate(), nil, nil) }),
		inst("successorR", "R", v00, `{"a":{"x":"s"},"m":{"k":{"x":"s"}},"l":[],"u":{"t":"r","r":"s"},"o":{}}`, func(w *world, i *thema.Instance) func() string {
			n, lac, err := i.AsSuccessor()
			if err != nil {
				return show(nil, nil, err)
			}
			return show(n.Hydrate(), lac, nil)
		}),
		inst("successorDehydrateR", "R", v00, `{"a":{"x":"s"},"m":{"k":{"x":"s"}},"l":[],"u":{"t":"r","r":"s"},"o":{"z":3}}`, func(w *world, i *thema.Instance) func() string {
			n, lac, err := i.AsSuccessor()
			if err != nil {
				return show(nil, nil, err)
			}
			return show(n.Dehydrate(), lac, nil)
		}),
		tr("translateMinorR", "R", v00, `{"a":{"x":"s"},"m":{},"l":[1],"o":{"z":4}}`, v01),
		{"bindTypeR", needs("R"), func(w *world) func() string {
			t, err := thema.BindType[*rT](w.R().Latest(), &rT{})
			return func() string {
				if err != nil {
					return errText(err)
				}
				return goJSON(t.NewT())
			}
		}},
		{"typedR", needs("R"), func(w *world) func() string {
			t, err := thema.BindType[*rT](w.R().Latest(), &rT{})
			if err != nil {
				return func() string { return errText(err) }
			}
			ti, err := t.ValidateTyped(w.rt.Context().CompileString(`{"b":{"x":"s"},"l":[1]}`))
			if err != nil {
				return func() string { return errText(err) }
			}
			return showT(ti.Value())
		}},
		{"examplesR", needs("R"), func(w *world) func() string {
			i := w.R().Latest().Examples()["one"].Hydrate()
			return show(i, nil, nil)
		}},
		{"muxR", needs("R"), func(w *world) func() string {
			return show(vmux.NewUntypedMux(w.R().Latest(), vmux.NewYAMLCodec("x"))([]byte("a:\n  x: s\nm: {}\nl: [1]\n")))
		}},
		{"newRuntime", func(w *world) {}, func(w *world) func() string {
			rt := thema.NewRuntime(cuecontext.New())
			return func() string { return linText(bindText(rt, linF)) }
		}},
	}
}

// tinst is a typed instance that threads share.
func (w *world) tinst() *thema.TypedInstance[*opT] {
	w.mu.Lock()
	ti := w.tin
	w.mu.Unlock()
	if ti == nil {
		var err error
		if ti, err = w.ts().ValidateTyped(w.rt.Context().CompileString(`{"k":"s"}`)); err != nil {
			panic(opFail("validate: " + err.Error()))
		}
		w.mu.Lock()
		w.tin = ti
		w.mu.Unlock()
	}
	return ti
}

// schedReq asks a process to explore the schedules of some operations.
type schedReq struct {
	Ops   []string
	Hot   bool // everything has been used before the threads start
	Bound int  // preemptions
	Max   int  // schedules
	// Only is a single schedule, if not nil
	Only []int `json:",omitempty"`
}

type schedFail struct {
	Sig, Text string
	Schedule  []int
}

type schedRes struct {
	Schedules, Steps, Stale int
	Truncated               bool
	Points                  int // the longest schedule
	Fails                   []schedFail
	Sample                  string
}

// schedMain explores schedules; it is there in race builds only.
var schedMain func(req schedReq) schedRes

func explore(t *T, req schedReq) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "sched")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(req)
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "zzrace"), "sched", string(b))
	cmd.Env = append(os.Environ(), "ZZRACELOG="+filepath.Join(dir, "race"), "GOMAXPROCS=2", "GOGC=400",
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(dir, "race"))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(5 * time.Minute):
		cmd.Process.Kill()
		<-done
		t.Fatal("hang", "the operations %v do not end: %s", req.Ops, tail(errb.String(), 4000))
	}
	if err != nil {
		t.Fatal("crash", "exploring %v: %s\n%s", req.Ops, err, tail(errb.String(), 4000))
	}
	var res schedRes
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		t.Fatal("crash", "exploring %v: %s\n%s", req.Ops, err, tail(errb.String(), 4000))
	}
	for i := 0; i < res.Schedules; i++ {
		t.State(fmt.Sprint(i))
		t.Checked(fmt.Sprintf("%d threads", len(req.Ops)), res.Schedules > 1)
	}
	for i := 0; i < res.Steps; i++ {
		t.Step()
	}
	if res.Truncated {
		t.g.res.Exhaustive = false
	}
	t.Sample("%s", res.Sample)
	for _, f := range res.Fails {
		t.Fail(f.Sig, "%v, schedule %v: %s", req.Ops, f.Schedule, f.Text)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func genC17(g *Gen) {
	ops := concurrentOps()
	bound, max := 1, 1000
	if g.Thorough() {
		bound, max = 2, 4000
	}
	for i, a := range ops {
		for j, b := range ops {
			a, b := a.name, b.name
			// quick: both orders are explored in one process
			if j < i && !g.Thorough() {
				continue
			}
			g.Case(a+" | "+b, func(t *T) {
				explore(t, schedReq{Ops: []string{a, b}, Bound: bound, Max: max})
			})
			if g.Thorough() {
				g.Case("used: "+a+" | "+b, func(t *T) {
					explore(t, schedReq{Ops: []string{a, b}, Bound: bound, Max: max, Hot: true})
				})
			}
		}
	}
}
