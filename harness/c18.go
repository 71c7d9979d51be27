package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	coapi "cuelang.org/go/encoding/openapi"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
)

func init() {
	register(&Prop{
		ID: "C18",
		Rule: "a case is one schema of the alphabet (1..2 fields, nested, deep compositions, references, joins, histories) and one generator configuration; " +
			"the document is interpreted by an independent evaluator on every probe value and compared with the schema's reference semantics; non-trivial: a field is present",
		Gen: func(g *Gen) { genDocs(g, false) },
	})
	register(&Prop{
		ID: "C19",
		Rule: "a case is one schema of the alphabet (1..2 fields, nested, deep compositions, references, joins, histories); " +
			"the document is interpreted by an independent JSON Schema (draft 4) evaluator on every probe value and compared with the schema's reference semantics; non-trivial: a field is present",
		Gen: func(g *Gen) { genDocs(g, true) },
	})
}

// ---------------------------------------------------------------------------
// An evaluator of schema documents.

type docEval struct {
	root   map[string]any
	draft4 bool
	bad    []string // malformed parts
}

func (d *docEval) badf(f string, a ...any) bool {
	s := fmt.Sprintf(f, a...)
	for _, b := range d.bad {
		if b == s {
			return false
		}
	}
	d.bad = append(d.bad, s)
	return false
}

func (d *docEval) component(name string) (map[string]any, bool) {
	c, _ := d.root["components"].(map[string]any)
	s, _ := c["schemas"].(map[string]any)
	m, ok := s[name].(map[string]any)
	return m, ok
}

func (d *docEval) components() []string {
	c, _ := d.root["components"].(map[string]any)
	s, _ := c["schemas"].(map[string]any)
	return keysOf(s)
}

func rat(n Num) *big.Rat {
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		panic("harness: number " + string(n))
	}
	return r
}

func jsonType(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case Num:
		if x.isInt() {
			return "integer"
		}
		return "number"
	case []any:
		return "array"
	}
	return "object"
}

func (d *docEval) count(k string, v any) int64 {
	n, ok := v.(Num)
	if !ok || !n.isInt() {
		d.badf("%s is not an integer: %s", k, lit(v))
		return 0
	}
	return rat(n).Num().Int64()
}

func (d *docEval) subs(k string, v any) []map[string]any {
	l, ok := v.([]any)
	if !ok || len(l) == 0 {
		d.badf("%s is not a non-empty list", k)
	}
	var out []map[string]any
	for _, e := range l {
		m, ok := e.(map[string]any)
		if !ok {
			d.badf("%s has a member that is not a schema", k)
			continue
		}
		out = append(out, m)
	}
	return out
}

// lint checks that a schema node is well formed, recursively, whatever the data.
func (d *docEval) lint(s map[string]any, root bool, depth int) {
	if depth > 12 {
		return
	}
	sub := func(k string, v any) {
		m, ok := v.(map[string]any)
		if !ok {
			d.badf("%s is not a schema: %s", k, lit(v))
			return
		}
		d.lint(m, false, depth+1)
	}
	for _, k := range keysOf(s) {
		v := s[k]
		switch k {
		case "$ref":
			r, _ := v.(string)
			if _, ok := d.component(strings.TrimPrefix(r, "#/components/schemas/")); !ok || !strings.HasPrefix(r, "#/components/schemas/") {
				d.badf("dangling $ref %s", lit(v))
			}
		case "properties":
			m, ok := v.(map[string]any)
			if !ok {
				d.badf("properties is not an object")
			}
			for _, p := range keysOf(m) {
				sub("property "+p, m[p])
			}
		case "items", "not":
			sub(k, v)
		case "additionalProperties":
			if _, ok := v.(bool); !ok {
				sub(k, v)
			}
		case "oneOf", "anyOf", "allOf":
			for _, m := range d.subs(k, v) {
				d.lint(m, false, depth+1)
			}
		case "type":
			ts, ok := v.([]any)
			if !ok {
				ts = []any{v}
			} else if !d.draft4 {
				d.badf("type list in OpenAPI")
			}
			for _, t := range ts {
				switch t {
				case "object", "array", "string", "integer", "number", "boolean":
				case "null":
					if !d.draft4 {
						d.badf("type null in OpenAPI 3.0")
					}
				default:
					d.badf("type %s", lit(t))
				}
			}
		case "enum", "required":
			l, ok := v.([]any)
			if !ok || len(l) == 0 {
				d.badf("%s is not a non-empty list", k)
			}
			seen := map[string]bool{}
			for _, e := range l {
				if seen[lit(e)] {
					d.badf("duplicate %s in %s", lit(e), k)
				}
				seen[lit(e)] = true
				if _, ok := e.(string); !ok && k == "required" {
					d.badf("%s in required", lit(e))
				}
			}
		case "pattern":
			p, ok := v.(string)
			if _, err := regexp.Compile(p); err != nil || !ok {
				d.badf("pattern %s", lit(v))
			}
		case "minimum", "maximum":
			if _, ok := v.(Num); !ok {
				d.badf("%s %s", k, lit(v))
			}
		case "exclusiveMinimum", "exclusiveMaximum":
			if _, ok := v.(bool); !ok {
				d.badf("%s %s", k, lit(v))
			}
		case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
			d.count(k, v)
		case "title", "description", "format":
			if _, ok := v.(string); !ok {
				d.badf("%s %s", k, lit(v))
			}
		case "default":
		case "$schema":
			if !d.draft4 || !root {
				d.badf("$schema where it does not belong")
			}
			if v != "http://json-schema.org/draft-04/schema#" {
				d.badf("$schema %s", lit(v))
			}
		case "nullable":
			if d.draft4 {
				d.badf("OpenAPI keyword nullable in JSON Schema")
			}
			if _, ok := v.(bool); !ok {
				d.badf("nullable %s", lit(v))
			}
		default:
			d.badf("unknown keyword %s", k)
		}
	}
}

func (d *docEval) eval(s map[string]any, v any, depth int) bool {
	if depth > 40 {
		return d.badf("reference loop")
	}
	if r, ok := s["$ref"].(string); ok {
		m, ok := d.component(strings.TrimPrefix(r, "#/components/schemas/"))
		if !ok {
			return d.badf("dangling $ref %s", r)
		}
		return d.eval(m, v, depth+1)
	}
	if v == nil && s["nullable"] == true && !d.draft4 {
		// OpenAPI 3.0: null passes the type and, by widespread practice, the enum
		// that CUE generates next to it.
		return true
	}
	jt := jsonType(v)
	for _, k := range keysOf(s) {
		a := s[k]
		switch k {
		case "type":
			ts, ok := a.([]any)
			if !ok {
				ts = []any{a}
			}
			hit := false
			for _, t := range ts {
				hit = hit || t == jt || t == "number" && jt == "integer"
			}
			if !hit {
				return false
			}
		case "enum":
			hit := false
			l, _ := a.([]any)
			for _, e := range l {
				hit = hit || lit(e) == lit(v)
			}
			if !hit {
				return false
			}
		case "pattern":
			if x, ok := v.(string); ok {
				p, _ := a.(string)
				re, err := regexp.Compile(p)
				if err != nil || !re.MatchString(x) {
					return false
				}
			}
		case "minLength", "maxLength":
			if x, ok := v.(string); ok {
				n := int64(len([]rune(x)))
				if c := d.count(k, a); k == "minLength" && n < c || k == "maxLength" && n > c {
					return false
				}
			}
		case "minimum", "maximum":
			if x, ok := v.(Num); ok {
				b, ok := a.(Num)
				if !ok {
					return d.badf("%s %s", k, lit(a))
				}
				c := rat(x).Cmp(rat(b))
				if k == "minimum" && (c < 0 || c == 0 && s["exclusiveMinimum"] == true) || k == "maximum" && (c > 0 || c == 0 && s["exclusiveMaximum"] == true) {
					return false
				}
			}
		case "format":
			if x, ok := v.(Num); ok && x.isInt() {
				var bits uint
				switch a {
				case "int32":
					bits = 31
				case "int64":
					bits = 63
				default:
					continue
				}
				lim := new(big.Int).Lsh(big.NewInt(1), bits)
				i := rat(x).Num()
				if i.Cmp(lim) >= 0 || i.Cmp(new(big.Int).Neg(lim)) < 0 {
					return false
				}
			}
		case "items":
			if x, ok := v.([]any); ok {
				m, _ := a.(map[string]any)
				for _, e := range x {
					if !d.eval(m, e, depth+1) {
						return false
					}
				}
			}
		case "minItems", "maxItems":
			if x, ok := v.([]any); ok {
				n := int64(len(x))
				if c := d.count(k, a); k == "minItems" && n < c || k == "maxItems" && n > c {
					return false
				}
			}
		case "minProperties", "maxProperties":
			if x, ok := v.(map[string]any); ok {
				n := int64(len(x))
				if c := d.count(k, a); k == "minProperties" && n < c || k == "maxProperties" && n > c {
					return false
				}
			}
		case "properties":
			if x, ok := v.(map[string]any); ok {
				m, _ := a.(map[string]any)
				for _, p := range keysOf(m) {
					pm, _ := m[p].(map[string]any)
					if e, ok := x[p]; ok && !d.eval(pm, e, depth+1) {
						return false
					}
				}
			}
		case "required":
			if x, ok := v.(map[string]any); ok {
				l, _ := a.([]any)
				for _, e := range l {
					n, _ := e.(string)
					if _, ok := x[n]; !ok {
						return false
					}
				}
			}
		case "additionalProperties":
			if x, ok := v.(map[string]any); ok {
				m, _ := s["properties"].(map[string]any)
				am, isSchema := a.(map[string]any)
				for _, p := range keysOf(x) {
					if _, declared := m[p]; declared {
						continue
					}
					if a == false || isSchema && !d.eval(am, x[p], depth+1) {
						return false
					}
				}
			}
		case "oneOf", "anyOf", "allOf":
			n := 0
			l := d.subs(k, a)
			for _, m := range l {
				if d.eval(m, v, depth+1) {
					n++
				}
			}
			if k == "oneOf" && n != 1 || k == "anyOf" && n == 0 || k == "allOf" && n != len(l) {
				return false
			}
		case "not":
			m, _ := a.(map[string]any)
			if d.eval(m, v, depth+1) {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Reference: what the document of a type has to accept. Documents describe
// complete values: every field that the schema does not mark optional has to be
// there, also one with a default; they do not forbid undeclared fields; float is
// number.

func docAccept(t Ty, v any) bool {
	switch x := t.(type) {
	case Scalar:
		if x.K == "float" {
			return docAccept(tNumber, v)
		}
		_, ok := accept(t, v)
		return ok
	case Def:
		return lit(v) == lit(x.D) || docAccept(x.Base, v)
	case Or:
		n := 0
		for _, e := range x.T {
			if docAccept(e, v) {
				n++
			}
		}
		return n == 1
	case List:
		l, ok := v.([]any)
		for _, e := range l {
			ok = ok && docAccept(x.E, e)
		}
		return ok
	case Tuple:
		// The formats have no tuples: the items are one of the element types.
		l, ok := v.([]any)
		ok = ok && len(l) == len(x.E)
		for _, e := range l {
			any := false
			for _, et := range x.E {
				any = any || docAccept(et, e)
			}
			ok = ok && any
		}
		return ok
	case Ref:
		return docAccept(x.T, v)
	case Map:
		m, ok := v.(map[string]any)
		for _, e := range m {
			ok = ok && docAccept(x.E, e)
		}
		return ok
	case Struct:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for _, f := range x.F {
			e, present := m[f.Name]
			if !present && !f.Opt || present && !docAccept(f.T, e) {
				return false
			}
		}
		return true
	}
	_, ok := accept(t, v)
	return ok
}

// ---------------------------------------------------------------------------

func docJSON(t *T, rt *thema.Runtime, f *ast.File, err error) map[string]any {
	t.Step()
	if err != nil {
		t.Fatal("generate", "generation failed: %s", err)
	}
	b, err := rt.Context().BuildFile(f).MarshalJSON()
	if err != nil {
		t.Fatal("json", "document is not concrete JSON: %s", err)
	}
	v, err := canon(b)
	m, ok := v.(map[string]any)
	if err != nil || !ok {
		t.Fatal("json", "document is not an object: %s", b)
	}
	return m
}

func makeDoc(t *T, rt *thema.Runtime, sch thema.Schema, js bool, cfg *openapi.Config) *docEval {
	var f *ast.File
	var err error
	if js {
		f, err = jsonschema.GenerateSchema(sch)
	} else {
		f, err = openapi.GenerateSchema(sch, cfg)
	}
	return &docEval{root: docJSON(t, rt, f, err), draft4: js}
}

// header checks the frame of the document.
func (d *docEval) header(t *T, title, version string, comps ...string) {
	info, _ := d.root["info"].(map[string]any)
	if d.root["openapi"] != "3.0.0" || info["title"] != title || info["version"] != version || lit(d.root["paths"]) != "{}" {
		t.Fail("header", "want title %q version %q, got %s", title, version, lit(d.root))
	}
	sort.Strings(comps)
	if fmt.Sprint(comps) != fmt.Sprint(d.components()) {
		t.Fail("components", "want components %v, have %v: %s", comps, d.components(), lit(d.root))
	}
	t.Checked("frame", true)
}

// compare interprets component name over all the data of st.
func (d *docEval) compare(t *T, name string, ty Ty, data func(f func(v any)), full Ty) {
	m, ok := d.component(name)
	if !ok {
		t.Fatal("component", "no component %s: %s", name, lit(d.root))
	}
	d.lint(m, true, 0)
	if d.draft4 {
		if _, ok := m["$schema"]; !ok && m["type"] != nil {
			d.badf("no $schema at the root")
		}
	}
	for _, c := range d.components() {
		if c != name {
			cm, _ := d.component(c)
			d.lint(cm, true, 0)
		}
	}
	if len(d.bad) > 0 {
		t.Fail("malformed", "%s in %s", strings.Join(d.bad, "; "), lit(m))
	}
	d.defaults(t, ty, m, name)
	wrong := false // one report per document
	data(func(v any) {
		got, want := d.eval(m, v, 0), docAccept(ty, v)
		if got != want && !wrong {
			wrong = true
			t.Fail("accept", "document accepts=%v, schema semantics=%v for %s\n%s\n%s", got, want, lit(v), ty.cue(), lit(m))
		}
		out := "rejected"
		if want {
			out = "accepted"
		}
		mm, _ := v.(map[string]any)
		t.Checked(out, len(mm) > 0)
		if full != nil {
			if c, ok := accept(full, v); ok && !wrong && !d.eval(m, c, 0) {
				wrong = true
				t.Fail("instance", "document rejects %s, the completed valid instance %s\n%s\n%s", lit(c), lit(v), ty.cue(), lit(m))
			}
		}
	})
	t.State(name, lit(m))
}

func numPred(text string, f func(r *big.Rat) bool, ints bool) Pred {
	return Pred{text, func(v any) bool {
		n, ok := v.(Num)
		return ok && (!ints || n.isInt()) && f(rat(n))
	}}
}

// docLeaves extends the alphabet by constructs that matter to the encoders.
func docLeaves() []namedTy {
	out := []namedTy{}
	for _, l := range leafTypes {
		if _, tuple := l.T.(Tuple); !tuple {
			out = append(out, l)
		}
	}
	cmp := func(op string, b int64) func(r *big.Rat) bool {
		return func(r *big.Rat) bool {
			c := r.Cmp(big.NewRat(b, 1))
			switch op {
			case ">":
				return c > 0
			case ">=":
				return c >= 0
			case "<":
				return c < 0
			}
			return c <= 0
		}
	}
	runes := func(f func(n int) bool) func(v any) bool {
		return func(v any) bool {
			s, ok := v.(string)
			return ok && f(len([]rune(s)))
		}
	}
	sA, sB := st(req("k", Const{"p"}), req("x", tInt)), st(req("k", Const{"q"}), opt("y", tString))
	return append(out, []namedTy{
		{">0", numPred("int & >0", cmp(">", 0), true)},
		{"<4", numPred("int & <4", cmp("<", 4), true)},
		{"n>=1", numPred("number & >=1", cmp(">=", 1), false)},
		{"n<=1", numPred("number & <=1", cmp("<=", 1), false)},
		{"n>0<4", numPred("number & >0 & <4", func(r *big.Rat) bool { return cmp(">", 0)(r) && cmp("<", 4)(r) }, false)},
		{"minrunes", Pred{"strings.MinRunes(2)", runes(func(n int) bool { return n >= 2 })}},
		{"maxrunes", Pred{"strings.MaxRunes(2)", runes(func(n int) bool { return n <= 2 })}},
		{"enumint", Enum{[]any{Num("1"), Num("3")}}},
		{"constint", Const{Num("4")}},
		{"constbool", Const{true}},
		{"null|int", Or{[]Ty{tNull, tInt}}},
		{"null|bool", Or{[]Ty{tNull, tBool}}},
		{"null|[string]", Or{[]Ty{tNull, List{tString}}}},
		{"null|{x}", Or{[]Ty{tNull, st(req("x", tInt))}}},
		{"null|map", Or{[]Ty{tNull, Map{tInt}}}},
		{"str|int|bool", Or{[]Ty{tString, tInt, tBool}}},
		{"str|[str]", Or{[]Ty{tString, List{tString}}}},
		{"int|{x}", Or{[]Ty{tInt, st(req("x", tInt))}}},
		{"{k:p}|{k:q}", Or{[]Ty{sA, sB}}},
		{"nullable in {}", st(req("x", Or{[]Ty{tNull, tInt}}))},
		{"nullable? in {}", st(opt("x", Or{[]Ty{tNull, tInt}}))},
		{"nullable in []", List{Or{[]Ty{tNull, tString}}}},
		{"nullable in map", Map{Or{[]Ty{tNull, tInt}}}},
		{"nullable in union", Or{[]Ty{st(req("k", Const{"p"}), req("x", Or{[]Ty{tNull, tInt}})), st(req("k", Const{"q"}), opt("y", Or{[]Ty{tNull, tString}}))}}},
		{"nullable in [union]", List{Or{[]Ty{st(req("k", Const{"p"}), req("x", Or{[]Ty{tNull, tInt}})), st(req("k", Const{"q"}), opt("y", Or{[]Ty{tNull, tString}}))}}}},
		{"pat|pat", Or{[]Ty{Pattern{`=~"^a"`, "a"}, Pattern{`=~"^z"`, "z"}}}},
		{"null|pat|pat", Or{[]Ty{tNull, Pattern{`=~"^a"`, "a"}, Pattern{`=~"^z"`, "z"}}}},
		{"<0|>3", Or{[]Ty{numPred("int & <0", cmp("<", 0), true), numPred("int & >3", cmp(">", 3), true)}}},
		{"null|<0|>3", Or{[]Ty{tNull, numPred("int & <0", cmp("<", 0), true), numPred("int & >3", cmp(">", 3), true)}}},
		{"null|str|int", Or{[]Ty{tNull, tString, tInt}}},
		{"null|enum", Or{[]Ty{tNull, Enum{[]any{"a", "b"}}}}},
		{"null|{k:p}|{k:q}", Or{[]Ty{tNull, sA, sB}}},
		{"[str|null|int]", List{Or{[]Ty{tString, tNull, tInt}}}},
		{"union of nullable lists", Or{[]Ty{st(req("k", Const{"p"}), req("x", List{Or{[]Ty{tNull, tInt}}})), st(req("k", Const{"q"}), opt("y", Map{Or{[]Ty{tNull, tString}}}))}}},
		{"union in union", Or{[]Ty{st(req("k", Const{"p"}), req("x", Or{[]Ty{tInt, st(req("z", Or{[]Ty{tNull, tInt}}))}})), st(req("k", Const{"q"}), opt("y", tString))}}},
		{"map of {}", Map{st(req("x", tInt))}},
		{"map of []", Map{List{tString}}},
		{"map of map", Map{Map{tInt}}},
		{"[[int]]", List{List{tInt}}},
		{"{x:{x:{x}}}", st(req("x", st(opt("x", st(req("x", tInt))))))},
		{"strdef in []", List{st(req("x", Def{"s", tString}))}},
		{"keywords", st(req("type", tString), opt("nullable", tBool), opt("example", tInt), opt("properties", st(opt("type", tInt))), opt("items", tString), opt("required", tBool), opt("enum", tInt))},
	}...)
}

// defaults compares the default of every field that is reached through
// properties, items and additionalProperties.
func (d *docEval) defaults(t *T, ty Ty, m map[string]any, at string) {
	sub := func(ty Ty, k any, at string) {
		if n, ok := k.(map[string]any); ok {
			d.defaults(t, ty, n, at)
		}
	}
	for i := 0; m["$ref"] != nil && i < 9; i++ {
		r, _ := m["$ref"].(string)
		m, _ = d.component(strings.TrimPrefix(r, "#/components/schemas/"))
	}
	want, has := any(nil), false
	switch x := ty.(type) {
	case Ref:
		d.defaults(t, x.T, m, at)
		return
	case Def:
		want, has = x.D, true
	case List:
		sub(x.E, m["items"], at+"[]")
	case Map:
		sub(x.E, m["additionalProperties"], at+"{}")
	case Struct:
		ps, _ := m["properties"].(map[string]any)
		for _, f := range x.F {
			sub(f.T, ps[f.Name], at+"."+f.Name)
		}
	}
	got, ok := m["default"]
	if ok != has || ok && lit(got) != lit(want) {
		t.Fail("default "+at, "default of %s: document %s (%v), schema %s (%v)\n%s\n%s", at, lit(got), ok, lit(want), has, ty.cue(), lit(m))
	}
	t.Checked("default", has)
}

// docSchemas are the schemas whose constructs the encoders support. Lists with
// different element types have no counterpart in the formats and are left out.
func docSchemas(thorough bool) []namedTy {
	var out []namedTy
	add := func(n string, t Ty) { out = append(out, namedTy{n, t}) }
	ls := docLeaves()
	for _, l := range ls {
		add("a:"+l.Name, st(req("a", l.T)))
		add("a?:"+l.Name, st(opt("a", l.T)))
		add("a:{b:"+l.Name+"}", st(req("a", st(req("b", l.T)))))
		add("a?:{b?:"+l.Name+"}", st(opt("a", st(opt("b", l.T)))))
		add("a:[...{b:"+l.Name+"}]", st(req("a", List{st(req("b", l.T))})))
		add("a:["+l.Name+"]", st(req("a", List{l.T})))
		add("a:<"+l.Name+">", st(req("a", Map{l.T})))
		add("a:{b:{c?:"+l.Name+"}}", st(req("a", st(req("b", st(opt("c", l.T)))))))
	}
	for _, n := range []string{"a-b", "schemas", "version", "schema", "name", "x.y", "é", "1", "joinSchema", "", "Sp ace", "type", "nullable", "example", "properties", "items", "$ref", "default", "deprecated", "xml", "readOnly"} {
		add(fmt.Sprintf("%q:string", n), st(req(n, tString)))
		add(fmt.Sprintf("%q?:1..3", n), st(opt(n, Range{1, 3, "int & >=1 & <=3"})))
		add(fmt.Sprintf("%q:{%q:int}", n, n), st(req(n, st(req(n, tInt)))))
		add(fmt.Sprintf("%q:null|string", n), st(req(n, Or{[]Ty{tNull, tString}})))
	}
	add("open", Struct{F: []Field{req("a", tInt)}, Open: true})
	for _, l := range ls {
		for _, m := range ls {
			for o := 0; o < 4; o++ {
				add(fmt.Sprintf("a:%s,b:%s/%d", l.Name, m.Name, o), st(
					Field{Name: "a", Opt: o&1 != 0, T: l.T}, Field{Name: "b", Opt: o&2 != 0, T: m.T}))
			}
		}
	}
	return append(out, deepSchemas(thorough)...)
}

// mutations are all values that differ from v at one place: a value replaced by
// one of another kind, a key or element removed or added.
func mutations(v any, f func(m any)) {
	for _, r := range []any{nil, true, "s", Num("1"), Num("1.5"), Num("-7"), arr(), obj()} {
		f(r)
	}
	switch x := v.(type) {
	case []any:
		cp := func() []any { return append([]any{}, x...) }
		for i := range x {
			i := i
			f(append(append([]any{}, x[:i]...), x[i+1:]...))
			mutations(x[i], func(m any) {
				c := cp()
				c[i] = m
				f(c)
			})
		}
		if len(x) > 0 {
			f(append(cp(), x[0]))
		}
	case map[string]any:
		cp := func() map[string]any {
			c := map[string]any{}
			for k, e := range x {
				c[k] = e
			}
			return c
		}
		for _, k := range keysOf(x) {
			k := k
			c := cp()
			delete(c, k)
			f(c)
			mutations(x[k], func(m any) {
				c := cp()
				c[k] = m
				f(c)
			})
		}
		c := cp()
		c["undeclared"] = "u"
		f(c)
	}
}

func structData(s Struct, probes, probes2 []any) func(f func(v any)) {
	return func(f func(v any)) {
		if len(s.F) > 1 {
			dataFor(s, probes2, f)
			return
		}
		dataFor(s, probes, f)
		n := 0
		for _, v := range instancesOf(s) {
			f(v)
			if n++; n <= 25 {
				mutations(v, f)
			}
		}
	}
}

func genDocs(g *Gen, js bool) {
	probes2 := []any{absent, nil, true, "", "a", "zz", Num("1"), Num("4"), Num("1.5"), arr(), arr("a"), obj(), obj("x", Num("1"))}
	probes := append(append([]any{}, probeValues...), obj("k", "p", "x", nil), obj("k", "q", "y", nil), obj("x", nil), obj("k", "p", "x", "s"),
		arr(obj("k", "p", "x", nil)), arr(obj("k", "p", "x", Num("1")), obj("k", "q", "y", "s")), arr(obj("k", "q", "y", nil)), arr(obj("k", "q", "y", Num("1"))),
		obj("x", nil, "w", Num("1")), obj("w", arr("a")), obj("w", obj("x", Num("1"))), arr(arr(Num("1")), arr()), arr(arr("s")), obj("x", obj("x", obj("x", Num("1")))),
		obj("x", obj()), obj("x", obj("x", obj())), obj("type", "s"), obj("type", "s", "nullable", true, "example", Num("1"), "properties", obj("type", Num("1"))), obj("type", nil), obj("type", "s", "nullable", nil))
	for _, s := range docSchemas(g.Thorough()) {
		s := s
		g.Case(s.Name, func(t *T) {
			rt := t.RT()
			lin := mustBind(t, LinSpec{Imports: imports(s.T), Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.T.cue()}}})
			d := makeDoc(t, rt, lin.First(), js, nil)
			d.header(t, "lin", "0.0", "lin")
			d.compare(t, "lin", s.T, structData(s.T.(Struct), probes, probes2), s.T)
			t.Sample("%s: %s", s.T.cue(), lit(d.root))
		})
	}
	genDocShapes(g, js)
	if !js {
		genDocReuse(g)
	}
}

// genDocReuse: one Config used for a sequence of schemas gives the documents that
// fresh ones give.
func genDocReuse(g *Gen) {
	type src struct{ name, text string }
	def := st(req("x", tInt))
	srcs := []src{
		{"plain", oneLin("lin", nil, st(req("a", tInt)).cue())},
		{"other", oneLin("other", nil, st(opt("b", tString)).cue())},
		{"ref", oneLin("lin", nil, body(st(req("a", Ref{"Def", def})), Ref{"Def", def}))},
		{"named as ref", oneLin("Def", nil, st(req("a", tInt)).cue())},
		{"ref as named", oneLin("refas", nil, body(st(req("a", Ref{"lin", def})), Ref{"lin", def}))},
		{"history", oneLin("lin", nil, st(req("a", tInt)).cue(), body(st(req("a", Ref{"Def", def})), Ref{"Def", def}))},
	}
	cfgs := []struct {
		name string
		mk   func() *openapi.Config
	}{
		{"empty", func() *openapi.Config { return &openapi.Config{} }},
		{"group", func() *openapi.Config { return &openapi.Config{Group: true} }},
		{"root", func() *openapi.Config { return &openapi.Config{RootName: "root"} }},
		{"sub", func() *openapi.Config { return &openapi.Config{Subpath: cue.ParsePath("a")} }},
		{"expand", func() *openapi.Config { return &openapi.Config{Config: &coapi.Config{ExpandReferences: true}} }},
		{"namefunc", func() *openapi.Config {
			return &openapi.Config{Config: &coapi.Config{NameFunc: func(v cue.Value, p cue.Path) string {
				return "N" + strings.Trim(p.String(), "#?")
			}}}
		}},
	}
	gen := func(lin thema.Lineage, cfg *openapi.Config) (out []string) {
		for _, s := range lin.All() {
			f, err := openapi.GenerateSchema(s, cfg)
			if err != nil {
				out = append(out, "err")
				continue
			}
			b, err := s.Underlying().Context().BuildFile(f).MarshalJSON()
			if err != nil {
				out = append(out, "badjson")
				continue
			}
			v, _ := canon(b)
			out = append(out, lit(v))
		}
		return out
	}
	depth := 2
	if g.Thorough() {
		depth = 3
	}
	for _, c := range cfgs {
		c := c
		forSeq(depth, len(srcs), func(seq []int) {
			key := "reuse " + c.name
			seq = append([]int{}, seq...)
			for _, i := range seq {
				key += " > " + srcs[i].name
			}
			g.Case(key, func(t *T) {
				rt := t.RT()
				shared := c.mk()
				for _, i := range seq {
					lin, err := bindText(rt, srcs[i].text)
					t.Step()
					if err != nil {
						t.Fatal("bind", "%s", err)
					}
					got, want := gen(lin, shared), gen(lin, c.mk())
					t.Step()
					if fmt.Sprint(got) != fmt.Sprint(want) {
						t.Fatal("reuse", "a used Config gives another document for %s\ngot  %v\nwant %v", srcs[i].name, got, want)
					}
					t.Checked("same", true)
					t.State(fmt.Sprint(i))
				}
			})
		})
	}
}

// Ref is a reference to a definition of the schema.
type Ref struct {
	Name string
	T    Ty
}

func (r Ref) cue() string { return "#" + r.Name }

type docCase struct {
	name  string
	lin   string
	v     [2]int
	title string
	comp  string
	comps []string // all components, nil: not pinned
	ty    Ty
	cfg   func() *openapi.Config
	bad   bool // generation has to fail
}

// body renders a struct and appends definitions.
func body(s Struct, defs ...Ref) string {
	out := strings.TrimSuffix(s.cue(), "}")
	for _, d := range defs {
		out += ", #" + d.Name + ": " + d.T.cue()
	}
	return out + "}"
}

func oneLin(name string, join Ty, bodies ...string) string {
	l := LinSpec{Name: name}
	if join != nil {
		l.Join = join.cue()
	}
	for i, b := range bodies {
		l.Schemas = append(l.Schemas, SchSpec{V: [2]int{i, 0}, Body: b})
	}
	for i := range bodies {
		if i > 0 {
			l.Lenses = append(l.Lenses, LensSpec{From: [2]int{i, 0}, To: [2]int{i - 1, 0}, Result: "{}"}, LensSpec{From: [2]int{i - 1, 0}, To: [2]int{i, 0}, Result: "{}"})
		}
		if strings.Contains(bodies[i]+l.Join, "strings.") {
			l.Imports = "import \"strings\"\n"
		}
	}
	return l.cue()
}

func noCfg() *openapi.Config { return nil }

// docCases are the further generator inputs.
func docCases(thorough, js bool) []docCase {
	var out []docCase
	ls := docLeaves()
	few := []namedTy{}
	for i, l := range ls {
		if i%5 == 0 || thorough {
			few = append(few, l)
		}
	}
	expand := func() *openapi.Config { return &openapi.Config{Config: &coapi.Config{ExpandReferences: true}} }
	// references
	for _, l := range ls {
		d := Ref{"Def", l.T}
		for i, s := range []Struct{
			st(req("a", d)), st(opt("a", d)), st(req("a", List{d})), st(req("a", Map{d})), st(req("a", d), opt("b", d)), st(req("a", st(req("b", d)))), st(req("a", tString), opt("b", List{st(opt("c", d))})),
		} {
			out = append(out, docCase{name: fmt.Sprintf("ref %d %s", i, l.Name), lin: oneLin("lin", nil, body(s, d)), title: "lin", comp: "lin", ty: s, cfg: noCfg})
			if !js {
				out = append(out, docCase{name: fmt.Sprintf("refx %d %s", i, l.Name), lin: oneLin("lin", nil, body(s, d)), title: "lin", comp: "lin", ty: s, cfg: expand})
			}
		}
		e := Ref{"Other", st(req("e", d))}
		s := st(req("a", e), opt("b", d))
		out = append(out, docCase{name: "ref chain " + l.Name, lin: oneLin("lin", nil, body(s, d, e)), title: "lin", comp: "lin", ty: s, cfg: noCfg})
	}
	// joins
	for _, l := range ls {
		for _, m := range few {
			for o := 0; o < 4; o++ {
				j := st(Field{Name: "j", Opt: o&1 != 0, T: l.T})
				s := st(Field{Name: "a", Opt: o&2 != 0, T: m.T})
				out = append(out, docCase{name: fmt.Sprintf("join %s/%s/%d", l.Name, m.Name, o), lin: oneLin("lin", j, s.cue()+" & {[string]: _}"), title: "lin", comp: "lin", ty: st(j.F[0], s.F[0]), cfg: noCfg})
			}
		}
	}
	// the same field declared twice: by joinSchema and schema, by two conjuncts, by an embedded definition
	for _, c := range []struct {
		n       string
		a, b, t Ty
	}{
		{"int&int32", tInt, Range{-2147483648, 2147483647, "int32"}, Range{-2147483648, 2147483647, "int32"}},
		{"int&range", tInt, Range{0, 300, "int & >=0 & <=300"}, Range{0, 300, "int & >=0 & <=300"}},
		{"number&int", Scalar{"number"}, tInt, tInt},
		{"string&enum", tString, Enum{V: []any{"p", "q"}}, Enum{V: []any{"p", "q"}}},
		{"enum&enum", Enum{V: []any{"p", "q", "r"}}, Enum{V: []any{"p", "q"}}, Enum{V: []any{"p", "q"}}},
		{"bool&true", tBool, Const{true}, Const{true}},
		{"string&string", tString, tString, tString},
		{"_&string", tAny, tString, tString},
		{"[...string]&[...enum]", List{tString}, List{Enum{V: []any{"p", "q"}}}, List{Enum{V: []any{"p", "q"}}}},
		{"{x}&{y}", st(req("x", tInt)), st(req("y", tString)), st(req("x", tInt), req("y", tString))},
		{"{x?}&{x}", st(opt("x", tInt)), st(req("x", tInt)), st(req("x", tInt))},
	} {
		for k := 0; k < 8; k++ {
			a, b := Field{Name: "a", Opt: k&1 != 0, T: c.a}, Field{Name: "a", Opt: k&2 != 0, T: c.b}
			ty := st(Field{Name: "a", Opt: a.Opt && b.Opt, T: c.t}, req("z", tBool))
			if k&4 != 0 {
				a, b = b, a
			}
			name := fmt.Sprintf("twice %s/%d ", c.n, k)
			out = append(out,
				docCase{name: name + "join", lin: oneLin("lin", st(a), st(b, req("z", tBool)).cue()), title: "lin", comp: "lin", ty: ty, cfg: noCfg},
				docCase{name: name + "and", lin: oneLin("lin", nil, st(a).cue()+" & "+st(b, req("z", tBool)).cue()), title: "lin", comp: "lin", ty: ty, cfg: noCfg},
				docCase{name: name + "embed", lin: oneLin("lin", nil, "{#Base\n"+strings.TrimPrefix(strings.TrimSuffix(st(b, req("z", tBool)).cue(), "}"), "{")+"\n#Base: {"+strings.TrimPrefix(strings.TrimSuffix(st(a).cue(), "}"), "{")+"\n...}}"), title: "lin", comp: "lin", ty: ty, cfg: noCfg},
			)
		}
	}
	// histories: the document of each version is that version's
	for i, l := range ls {
		m, n := ls[(i+1)%len(ls)], ls[(i+7)%len(ls)]
		bodies := []Struct{st(req("a", l.T)), st(opt("a", m.T), req("b", l.T)), st(req("c", n.T))}
		var texts []string
		for _, b := range bodies {
			texts = append(texts, b.cue())
		}
		for v := range bodies {
			out = append(out, docCase{name: fmt.Sprintf("history %s@%d", l.Name, v), lin: oneLin("lin", nil, texts...), v: [2]int{v, 0}, title: "lin", comp: "lin", comps: []string{"lin"}, ty: bodies[v], cfg: noCfg})
		}
	}
	// names
	for _, n := range []string{"lin", "Lin", "a-b", "a_b", "foo.bar", "x1", "a-b-c", "schema", "type", "UPPER", "withJoin"} {
		n, s := n, st(req("a", tInt))
		clean := strings.NewReplacer("-", "", ".", "").Replace(n)
		out = append(out, docCase{name: "lineage name " + n, lin: oneLin(n, nil, s.cue()), title: clean, comp: clean, comps: []string{clean}, ty: s, cfg: noCfg})
		if !js && clean == n {
			out = append(out, docCase{name: "root name " + n, lin: oneLin("lin", nil, s.cue()), title: n, comp: n, comps: []string{n}, ty: s, cfg: func() *openapi.Config { return &openapi.Config{RootName: n} }})
		}
	}
	if js {
		return out
	}
	// subpaths
	for _, l := range ls {
		sub := func(p cue.Path) func() *openapi.Config {
			return func() *openapi.Config { return &openapi.Config{Subpath: p} }
		}
		out = append(out,
			docCase{name: "subpath a " + l.Name, lin: oneLin("lin", nil, st(req("a", l.T), req("b", tBool)).cue()), title: "a", comp: "a", comps: []string{"a"}, ty: l.T, cfg: sub(cue.ParsePath("a"))},
			docCase{name: "subpath a.b " + l.Name, lin: oneLin("lin", nil, st(req("a", st(req("b", l.T), req("c", tBool)))).cue()), title: "b", comp: "b", comps: []string{"b"}, ty: l.T, cfg: sub(cue.ParsePath("a.b"))},
			docCase{name: "subpath root " + l.Name, lin: oneLin("lin", nil, st(req("a", l.T), req("b", tBool)).cue()), title: "named", comp: "named", comps: []string{"named"}, ty: l.T, cfg: func() *openapi.Config {
				return &openapi.Config{Subpath: cue.ParsePath("a"), RootName: "named"}
			}},
			docCase{name: "subpath none " + l.Name, lin: oneLin("lin", nil, st(req("a", l.T)).cue()), cfg: sub(cue.ParsePath("zzz")), bad: true},
			docCase{name: "subpath none below " + l.Name, lin: oneLin("lin", nil, st(req("b", st(req("a", l.T)))).cue()), cfg: sub(cue.ParsePath("b.zzz")), bad: true},
		)
	}
	// groups
	grp := func() *openapi.Config { return &openapi.Config{Group: true} }
	for i, l := range ls {
		m, n := ls[(i+3)%len(ls)], ls[(i+11)%len(ls)]
		text := body(st(req("a", l.T), opt("b", m.T)), Ref{"C", n.T})
		for _, c := range []namedTy{{"a", l.T}, {"b", m.T}, {"C", n.T}} {
			out = append(out, docCase{name: "group " + l.Name + " " + c.Name, lin: oneLin("lin", nil, text), title: "lin", comp: c.Name, comps: []string{"C", "a", "b"}, ty: c.T, cfg: grp})
		}
	}
	// groups: names, references, joins, versions; RootName and Subpath are ignored
	names := []string{"foo", "Foo", "FOO", "f", "x1", "a_b", "schema", "type", "lin"}
	for i, a := range names {
		for j, b := range names {
			if a == b {
				continue
			}
			for o := 0; o < 4; o++ {
				l, m := ls[(i*7+j)%len(ls)], few[(j*3+i)%len(few)]
				text := st(Field{Name: a, Opt: o&1 != 0, T: l.T}, Field{Name: b, Opt: o&2 != 0, T: m.T}).cue()
				for _, c := range []namedTy{{a, l.T}, {b, m.T}} {
					out = append(out, docCase{name: fmt.Sprintf("group names %s %s %d: %s", a, b, o, c.Name), lin: oneLin("lin", nil, text), title: "lin", comp: c.Name, comps: []string{a, b}, ty: c.T, cfg: grp})
				}
			}
		}
	}
	for i, l := range ls {
		d := Ref{"D", l.T}
		n := few[i%len(few)]
		for j, w := range []Ty{d, List{d}, Map{d}, st(req("x", d)), st(opt("x", d), req("y", n.T))} {
			if j == 0 && objectUnion(l.T) {
				continue // CUE has no component that is a reference to such a union
			}
			text := body(st(opt("a", w), req("b", n.T)), d)
			for _, c := range []namedTy{{"a", w}, {"b", n.T}, {"D", l.T}} {
				out = append(out, docCase{name: fmt.Sprintf("group ref %s %d %s", l.Name, j, c.Name), lin: oneLin("lin", nil, text), title: "lin", comp: c.Name, ty: c.T, cfg: grp})
			}
		}
		j, s := st(req("j", l.T)), st(req("a", n.T))
		for _, c := range []namedTy{{"j", l.T}, {"a", n.T}} {
			out = append(out, docCase{name: fmt.Sprintf("group join %s %s", l.Name, c.Name), lin: oneLin("lin", j, s.cue()+" & {[string]: _}"), title: "lin", comp: c.Name, comps: []string{"a", "j"}, ty: c.T, cfg: func() *openapi.Config {
				return &openapi.Config{Group: true, RootName: "root", Subpath: cue.ParsePath("j")}
			}})
		}
		out = append(out, docCase{name: "group history " + l.Name, lin: oneLin("lin", nil, s.cue(), j.cue()), v: [2]int{1, 0}, title: "lin", comp: "j", comps: []string{"j"}, ty: l.T, cfg: grp})
		// subpaths of joined, referred to and later schemas
		sub := func(p string) func() *openapi.Config {
			return func() *openapi.Config { return &openapi.Config{Subpath: cue.ParsePath(p)} }
		}
		both := st(req("j", l.T), req("n", n.T))
		open := func(s Struct) string { return s.cue() + " & {[string]: _}" }
		out = append(out,
			docCase{name: "subpath join only " + l.Name, lin: oneLin("lin", st(req("p", st(req("j", l.T)))), open(st(req("b", tBool)))), title: "p", comp: "p", comps: []string{"p"}, ty: st(req("j", l.T)), cfg: sub("p")},
			docCase{name: "subpath schema only " + l.Name, lin: oneLin("lin", Raw("{b: bool, ...}"), "{p: "+open(st(req("j", l.T)))+", ...}"), title: "p", comp: "p", comps: []string{"p"}, ty: st(req("j", l.T)), cfg: sub("p")},
			docCase{name: "subpath both " + l.Name, lin: oneLin("lin", Raw("{p: "+open(st(req("j", l.T)))+", ...}"), "{p: "+open(st(req("n", n.T)))+", ...}"), title: "p", comp: "p", comps: []string{"p"}, ty: both, cfg: sub("p")},
			docCase{name: "subpath both leaf " + l.Name, lin: oneLin("lin", Raw("{p: "+open(st(req("j", l.T)))+", ...}"), "{p: "+open(st(req("n", n.T)))+", ...}"), title: "j", comp: "j", comps: []string{"j"}, ty: l.T, cfg: sub("p.j")},
			docCase{name: "subpath both refined " + l.Name, lin: oneLin("lin", Raw("{p: "+open(st(req("j", l.T)))+", ...}"), "{p: {j: _}, ...}"), title: "j", comp: "j", comps: []string{"j"}, ty: l.T, cfg: sub("p.j")},
			docCase{name: "subpath ref " + l.Name, lin: oneLin("lin", nil, body(st(req("a", d)), d)), title: "a", comp: "a", ty: l.T, cfg: sub("a")},
			docCase{name: "subpath into ref " + l.Name, lin: oneLin("lin", nil, body(st(req("a", Ref{"D", both})), Ref{"D", both})), title: "j", comp: "j", ty: l.T, cfg: sub("a.j")},
			docCase{name: "subpath definition " + l.Name, lin: oneLin("lin", nil, body(st(req("a", tString)), Ref{"D", both})), title: "n", comp: "n", ty: n.T, cfg: sub("#D.n")},
			docCase{name: "subpath history " + l.Name, lin: oneLin("lin", nil, st(req("z", n.T)).cue(), st(req("a", l.T)).cue()), v: [2]int{1, 0}, title: "a", comp: "a", comps: []string{"a"}, ty: l.T, cfg: sub("a")},
			docCase{name: "subpath old " + l.Name, lin: oneLin("lin", nil, st(req("a", n.T)).cue(), st(req("b", l.T)).cue()), v: [2]int{1, 0}, cfg: sub("a"), bad: true},
			docCase{name: "subpath deep " + l.Name, lin: oneLin("lin", nil, st(req("a", st(req("a", st(req("a", l.T), req("b", tInt))), req("b", tString)))).cue()), title: "a", comp: "a", comps: []string{"a"}, ty: l.T, cfg: sub("a.a.a")},
		)
	}
	kept := out[:0]
	for _, c := range out {
		if !strings.HasPrefix(c.name, "subpath ref ") || !objectUnion(c.ty) {
			kept = append(kept, c)
		}
	}
	return kept
}

// objectUnion: a union of which a member is not a scalar.
func objectUnion(t Ty) bool {
	o, ok := t.(Or)
	for i := 0; ok && i < len(o.T); i++ {
		switch o.T[i].(type) {
		case Struct, Map, List, Or, Tuple:
			return true
		}
	}
	return false
}

// Raw is CUE text.
type Raw string

func (r Raw) cue() string { return string(r) }

func genDocShapes(g *Gen, js bool) {
	probes := append(append([]any{}, probeValues...), obj("k", "p", "x", nil), obj("k", "q", "y", nil))
	for _, c := range docCases(g.Thorough(), js) {
		c := c
		g.Case(c.name, func(t *T) {
			rt := t.RT()
			lin, err := bindText(rt, c.lin)
			t.Step()
			if err != nil {
				t.Fatal("bind", "%s\n%s", err, c.lin)
			}
			sch := thema.SchemaP(lin, sv(c.v))
			if c.bad {
				_, err := openapi.GenerateSchema(sch, c.cfg())
				t.Step()
				if err == nil {
					t.Fail("accepted", "generated a document for a path that is not in the schema\n%s", c.lin)
				}
				t.Checked("refused", true)
				return
			}
			d := makeDoc(t, rt, sch, js, c.cfg())
			comps := c.comps
			if comps == nil {
				comps = d.components()
			}
			d.header(t, c.title, vstr(c.v), comps...)
			data := func(f func(v any)) {
				for _, v := range probes {
					if v != absent {
						f(v)
					}
				}
				for i, v := range instancesOf(c.ty) {
					f(v)
					if i < 20 {
						mutations(v, f)
					}
				}
			}
			if s, ok := c.ty.(Struct); ok && len(s.F) <= 2 {
				all := data
				data = func(f func(v any)) { all(f); dataFor(s, probes[:len(probes)/len(s.F)], f) }
			}
			d.compare(t, c.comp, c.ty, data, nil)
		})
	}
}

func imports(t Ty) string {
	if strings.Contains(t.cue(), "strings.") {
		return "import \"strings\"\n"
	}
	return ""
}
