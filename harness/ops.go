package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	"cuelang.org/go/cue/cuecontext"
	"cuelang.org/go/cue/format"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/encoding/typescript"
	"github.com/grafana/thema/vmux"
)

// world is the state that a history of operations shares: one runtime, and
// lineages, typed schemas and instances made on first use.
type world struct {
	rt    *thema.Runtime
	mu    worldMu // guards the maps only, never held across an operation
	lins  map[string]thema.Lineage
	insts map[string]*thema.Instance
	typed map[string]thema.TypedSchema[*opT]
	data  map[string]cue.Value
	tin   *thema.TypedInstance[*opT]
	// prepared worlds have everything made up front
	prepared bool
}

// worldMu is a mutex until it is off, when everything is there.
type worldMu struct {
	m   sync.Mutex
	off bool
}

func (m *worldMu) Lock() {
	if !m.off {
		m.m.Lock()
	}
}

func (m *worldMu) Unlock() {
	if !m.off {
		m.m.Unlock()
	}
}

type opT struct {
	K string   `json:"k"`
	D int64    `json:"d"`
	L []string `json:"l"`
}

func newWorld() *world {
	return &world{rt: thema.NewRuntime(cuecontext.New()), lins: map[string]thema.Lineage{}, insts: map[string]*thema.Instance{}, typed: map[string]thema.TypedSchema[*opT]{}}
}

// The lineages of the operation alphabet.
const linA = `
name: "lina"
schemas: [
	{version: [0, 0], schema: {k: string, d: *4 | int64}},
	{version: [0, 1], schema: {k: string, d: *4 | int64, o?: int}},
	{version: [1, 0], schema: {k: string, d: *5 | int64, l: *["x"] | [...string]}, examples: {one: {k: "e"}}},
]
lenses: [
	{from: [0, 1], to: [0, 0], input: _, result: {k: input.k, d: input.d}},
	{from: [1, 0], to: [0, 1], input: _, result: {k: "\(input.k)<", d: input.d}},
	{from: [0, 1], to: [1, 0], input: _, result: {k: "\(input.k)>", l: ["t"]}},
]
`

// linB: another lineage that has the name and versions of linA.
const linB = `
name: "lina"
schemas: [
	{version: [0, 0], schema: {k: string, d: *8 | int64}},
	{version: [0, 1], schema: {k: string, d: *8 | int64, o?: string}},
	{version: [1, 0], schema: {k: string, d: *9 | int64, l: *["y"] | [...string]}, examples: {one: {k: "f"}}},
]
lenses: [
	{from: [0, 1], to: [0, 0], input: _, result: {k: input.k, d: input.d}},
	{from: [1, 0], to: [0, 1], input: _, result: {k: "\(input.k)<<", d: input.d}},
	{from: [0, 1], to: [1, 0], input: _, result: {k: "\(input.k)>>", l: ["u"]}},
]
`

// linF: the lens to 1.0 fails for k == "bad".
const linF = `
name: "linf"
schemas: [
	{version: [0, 0], schema: {k: string}},
	{version: [1, 0], schema: {q: "a" | "good"}},
]
lenses: [
	{from: [1, 0], to: [0, 0], input: _, result: {k: input.q}},
	{from: [0, 0], to: [1, 0], input: _, result: {q: input.k}},
]
`

// linG: Go lenses.
const linG = `
name: "ling"
schemas: [
	{version: [0, 0], schema: {k: string}},
	{version: [1, 0], schema: {q: string}},
]
`

var linBad = map[string]string{
	"gap":     `{name: "bad", schemas: [{version: [0, 0], schema: {k: string}}, {version: [0, 2], schema: {k: string, o?: int}}]}`,
	"compat":  `{name: "bad", schemas: [{version: [0, 0], schema: {k: string}}, {version: [0, 1], schema: {k: int}}]}`,
	"noname":  `{schemas: [{version: [0, 0], schema: {k: string}}]}`,
	"example": `{name: "bad", schemas: [{version: [0, 0], schema: {k: string}, examples: {one: {k: 1}}}]}`,
}

func (w *world) get(name string, mk func() (thema.Lineage, error)) thema.Lineage {
	w.mu.Lock()
	l, ok := w.lins[name]
	w.mu.Unlock()
	if ok {
		return l
	}
	l, err := mk()
	if err != nil {
		panic(opFail("bind " + name + ": " + err.Error()))
	}
	w.mu.Lock()
	w.lins[name] = l
	w.mu.Unlock()
	return l
}

type opFail string

func (w *world) A() thema.Lineage {
	return w.get("A", func() (thema.Lineage, error) { return bindText(w.rt, linA) })
}
func (w *world) B() thema.Lineage {
	return w.get("B", func() (thema.Lineage, error) { return bindText(w.rt, linB) })
}
func (w *world) F() thema.Lineage {
	return w.get("F", func() (thema.Lineage, error) { return bindText(w.rt, linF) })
}
func (w *world) G() thema.Lineage {
	return w.get("G", func() (thema.Lineage, error) { return bindGo(w.rt, true) })
}

func bindGo(rt *thema.Runtime, complete bool) (thema.Lineage, error) {
	ls := []thema.ImperativeLens{
		{From: thema.SV(0, 0), To: thema.SV(1, 0), Mapper: func(i *thema.Instance, to thema.Schema) (*thema.Instance, error) {
			k, err := i.Underlying().LookupPath(cue.ParsePath("k")).String()
			if err != nil {
				return nil, err
			}
			if k == "bad" {
				return nil, fmt.Errorf("mapper failed")
			}
			return to.Validate(jsonData(rt, lit(obj("q", k+"!"))))
		}},
	}
	if complete {
		ls = append(ls, thema.ImperativeLens{From: thema.SV(1, 0), To: thema.SV(0, 0), Mapper: func(i *thema.Instance, to thema.Schema) (*thema.Instance, error) {
			return to.Validate(jsonData(rt, `{"k":"back"}`))
		}})
	}
	return bindText(rt, linG, thema.ImperativeLenses(ls...))
}

func (w *world) inst(lin string, v thema.SyntacticVersion, js string) *thema.Instance {
	key := lin + v.String() + js
	w.mu.Lock()
	i, ok := w.insts[key]
	w.mu.Unlock()
	if ok {
		return i
	}
	l := map[string]func() thema.Lineage{"A": w.A, "B": w.B, "F": w.F, "G": w.G, "R": w.R}[lin]()
	i, err := thema.SchemaP(l, v).Validate(jsonData(w.rt, js))
	if err != nil {
		panic(opFail("validate: " + err.Error()))
	}
	w.mu.Lock()
	w.insts[key] = i
	w.mu.Unlock()
	return i
}

func (w *world) ts() thema.TypedSchema[*opT] {
	w.mu.Lock()
	t, ok := w.typed["A"]
	w.mu.Unlock()
	if ok {
		return t
	}
	t, err := thema.BindType[*opT](w.A().Latest(), &opT{})
	if err != nil {
		panic(opFail("bindtype: " + err.Error()))
	}
	w.mu.Lock()
	w.typed["A"] = t
	w.mu.Unlock()
	return t
}

// prepare makes everything the operations share.
func (w *world) prepare() {
	w.A()
	w.B()
	w.F()
	w.G()
	w.ts()
	for _, i := range []struct {
		l  string
		v  thema.SyntacticVersion
		js string
	}{
		{"A", thema.SV(0, 0), `{"k":"s"}`}, {"A", thema.SV(1, 0), `{"k":"s"}`}, {"B", thema.SV(0, 0), `{"k":"s"}`},
		{"F", thema.SV(0, 0), `{"k":"bad"}`}, {"F", thema.SV(0, 0), `{"k":"good"}`},
		{"G", thema.SV(0, 0), `{"k":"s"}`}, {"G", thema.SV(0, 0), `{"k":"bad"}`}, {"G", thema.SV(1, 0), `{"q":"s"}`},
	} {
		w.inst(i.l, i.v, i.js)
	}
	w.prepared = true
}

type op struct {
	name string
	run  func(w *world) string
	// light ops take few lock operations
	heavy bool
}

func (o op) do(w *world) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(opFail); ok {
				res = "SETUP " + string(f)
				return
			}
			res = fmt.Sprintf("PANIC %v", r)
		}
	}()
	return o.run(w)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	l := strings.Split(err.Error(), "\n")
	sort.Strings(l)
	return "err(" + strings.Join(l, "|") + ")"
}

func instText(i *thema.Instance, lac thema.TranslationLacunas, err error) string {
	if i == nil {
		return "nil " + errText(err)
	}
	return fmt.Sprintf("%s %s lac=%d %s", i.Schema().Version(), valueOf(i.Underlying()), lacCount(lac), errText(err))
}

func linText(l thema.Lineage, err error) string {
	if l == nil {
		return "nil " + errText(err)
	}
	var vs []string
	for _, s := range l.All() {
		vs = append(vs, s.Version().String())
	}
	return l.Name() + " " + strings.Join(vs, ",") + " " + errText(err)
}

func fileText(f *ast.File, err error) string {
	if err != nil {
		return errText(err)
	}
	b, err := format.Node(f)
	return fmt.Sprintf("%016x %s", hash(string(b)), errText(err))
}

func bytesText(b []byte, err error) string {
	return fmt.Sprintf("%016x %s", hash(string(b)), errText(err))
}

func opsAlphabet() []op {
	val := func(lin string, v thema.SyntacticVersion, js string) func(w *world) string {
		return func(w *world) string {
			l := map[string]func() thema.Lineage{"A": w.A, "B": w.B, "F": w.F, "G": w.G}[lin]()
			i, err := thema.SchemaP(l, v).Validate(jsonData(w.rt, js))
			return instText(i, nil, err)
		}
	}
	tr := func(lin string, from thema.SyntacticVersion, js string, to thema.SyntacticVersion) func(w *world) string {
		return func(w *world) string {
			i := w.inst(lin, from, js)
			r, lac, err := i.Translate(to)
			return instText(r, lac, err) + " src=" + valueOf(i.Underlying())
		}
	}
	return []op{
		{name: "bindA", run: func(w *world) string { return linText(bindText(w.rt, linA)) }},
		{name: "validOther", run: val("B", thema.SV(0, 1), `{"k":"s","o":"p"}`)},
		{name: "translateOther", run: tr("B", thema.SV(0, 0), `{"k":"s"}`, thema.SV(1, 0)), heavy: true},
		{name: "bindTypeOther", run: func(w *world) string {
			t, err := thema.BindType[*opT](w.B().Latest(), &opT{})
			if err != nil {
				return errText(err)
			}
			return goJSON(t.NewT())
		}},
		{name: "encodeOther", run: func(w *world) string {
			return fileText(openapi.GenerateSchema(w.B().Latest(), nil)) + fileText(jsonschema.GenerateSchema(w.B().Latest()))
		}},
		{name: "bindGo", run: func(w *world) string { return linText(bindGo(w.rt, true)) }},
		{name: "bindGoIncomplete", run: func(w *world) string { return linText(bindGo(w.rt, false)) }},
		{name: "bindGap", run: func(w *world) string { return linText(bindText(w.rt, linBad["gap"])) }},
		{name: "bindIncompat", run: func(w *world) string { return linText(bindText(w.rt, linBad["compat"])) }},
		{name: "bindNoName", run: func(w *world) string { return linText(bindText(w.rt, linBad["noname"])) }},
		{name: "bindBadExample", run: func(w *world) string { return linText(bindText(w.rt, linBad["example"])) }},
		{name: "validOld", run: val("A", thema.SV(0, 0), `{"k":"s"}`)},
		{name: "validNew", run: val("A", thema.SV(1, 0), `{"k":"s","l":["a","b"]}`)},
		{name: "invalidType", run: val("A", thema.SV(0, 0), `{"k":1}`)},
		{name: "invalidMissing", run: val("A", thema.SV(1, 0), `{}`)},
		{name: "invalidExtra", run: val("A", thema.SV(0, 1), `{"k":"s","zzz":1}`)},
		{name: "validateAny", run: func(w *world) string {
			return instText(w.A().ValidateAny(jsonData(w.rt, `{"k":"s","o":1}`)), nil, nil)
		}},
		{name: "validateAnyNone", run: func(w *world) string {
			return instText(w.A().ValidateAny(jsonData(w.rt, `{"nope":1}`)), nil, nil)
		}},
		{name: "translateFwd", run: tr("A", thema.SV(0, 0), `{"k":"s"}`, thema.SV(1, 0)), heavy: true},
		{name: "translateMinor", run: tr("A", thema.SV(0, 0), `{"k":"s"}`, thema.SV(0, 1)), heavy: true},
		{name: "translateBack", run: tr("A", thema.SV(1, 0), `{"k":"s"}`, thema.SV(0, 0)), heavy: true},
		{name: "translateFault", run: tr("F", thema.SV(0, 0), `{"k":"bad"}`, thema.SV(1, 0)), heavy: true},
		{name: "translateGood", run: tr("F", thema.SV(0, 0), `{"k":"good"}`, thema.SV(1, 0)), heavy: true},
		{name: "translateGo", run: tr("G", thema.SV(0, 0), `{"k":"s"}`, thema.SV(1, 0))},
		{name: "translateGoFault", run: tr("G", thema.SV(0, 0), `{"k":"bad"}`, thema.SV(1, 0))},
		{name: "translateGoBack", run: tr("G", thema.SV(1, 0), `{"q":"s"}`, thema.SV(0, 0))},
		{name: "successor", run: func(w *world) string {
			i, lac, err := w.inst("A", thema.SV(0, 0), `{"k":"s"}`).AsSuccessor()
			return instText(i, lac, err)
		}},
		{name: "hydrate", run: func(w *world) string {
			return instText(w.inst("A", thema.SV(1, 0), `{"k":"s"}`).Hydrate(), nil, nil)
		}},
		{name: "dehydrate", run: func(w *world) string {
			return instText(w.inst("A", thema.SV(1, 0), `{"k":"s"}`).Dehydrate(), nil, nil)
		}},
		{name: "bindType", run: func(w *world) string {
			t, err := thema.BindType[*opT](w.A().Latest(), &opT{})
			if err != nil {
				return errText(err)
			}
			v := t.NewT()
			r := goJSON(v)
			v.K, v.D = "dirty", 99
			for i := range v.L {
				v.L[i] = "dirty"
			}
			return r
		}},
		{name: "bindTypeBad", run: func(w *world) string {
			_, err := thema.BindType[*sX](w.A().Latest(), &sX{})
			return errText(err)
		}},
		{name: "assignable", run: func(w *world) string {
			return errText(thema.AssignableTo(w.A().First(), &opT{}))
		}},
		{name: "newT", run: func(w *world) string {
			v := w.ts().NewT()
			r := goJSON(v)
			v.K = "dirty"
			for i := range v.L {
				v.L[i] = "dirty"
			}
			return r
		}},
		{name: "typedValue", run: func(w *world) string {
			ti, err := w.ts().ValidateTyped(jsonData(w.rt, `{"k":"s"}`))
			if err != nil {
				return errText(err)
			}
			v, err := ti.Value()
			return goJSON(v) + errText(err)
		}},
		{name: "navigate", run: func(w *world) string {
			l := w.A()
			var out []string
			for s := l.First(); s != nil; s = s.Successor() {
				out = append(out, s.Version().String()+"/"+s.LatestInMajor().Version().String())
			}
			_, err := l.Schema(thema.SV(7, 7))
			return strings.Join(out, ",") + errText(err)
		}},
		{name: "examples", run: func(w *world) string {
			var out []string
			for n, i := range w.A().Latest().Examples() {
				out = append(out, n+"="+valueOf(i.Underlying()))
			}
			return strings.Join(out, ",")
		}},
		{name: "appendOnly", run: func(w *world) string {
			return errText(thema.IsAppendOnly(w.A(), w.A())) + errText(thema.IsAppendOnly(w.F(), w.G()))
		}},
		{name: "muxFwd", run: func(w *world) string {
			return instText(vmux.NewUntypedMux(w.A().Latest(), vmux.NewJSONCodec("x"))([]byte(`{"k":"s","o":3}`)))
		}, heavy: true},
		{name: "muxValue", run: func(w *world) string {
			v, lac, err := vmux.NewValueMux[*opT](w.ts(), vmux.NewYAMLCodec("x"))([]byte("k: s\n"))
			return fmt.Sprint(goJSON(v), lacCount(lac), errText(err))
		}},
		{name: "muxInvalid", run: func(w *world) string {
			return instText(vmux.NewUntypedMux(w.A().First(), vmux.NewJSONCodec("x"))([]byte(`{"nope":3}`)))
		}},
		{name: "openapi", run: func(w *world) string { return fileText(openapi.GenerateSchema(w.A().Latest(), nil)) }},
		{name: "jsonschema", run: func(w *world) string { return fileText(jsonschema.GenerateSchema(w.A().Latest())) }},
		{name: "gotypes", run: func(w *world) string {
			return bytesText(gocode.GenerateTypesOpenAPI(w.A().Latest(), &gocode.TypeConfigOpenAPI{}))
		}, heavy: true},
		{name: "typescript", run: func(w *world) string {
			f, err := typescript.GenerateTypes(w.A().Latest(), &typescript.TypeConfig{})
			if err != nil {
				return errText(err)
			}
			return bytesText([]byte(fmt.Sprint(f)), nil)
		}},
	}
}
