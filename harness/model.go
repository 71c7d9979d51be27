package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	cuejson "cuelang.org/go/encoding/json"
	"github.com/grafana/thema"
)

// ---------------------------------------------------------------------------
// Reference model: a small schema language with its own denotational semantics,
// independent of CUE's evaluator. Data are plain JSON values:
// nil, bool, string, Num, []any, map[string]any.

// Num is a JSON number literal.
type Num string

func (n Num) isInt() bool { return !strings.ContainsAny(string(n), ".eE") }

// Ty is a schema type.
type Ty interface{ cue() string }

type (
	Scalar struct{ K string } // string int bool float number null _
	Range  struct {
		Lo, Hi int64
		Text   string
	}
	Pattern struct{ Text, Prefix string } // strings with a prefix
	// Pred is a type given by CUE text and a predicate.
	Pred struct {
		Text string
		F    func(v any) bool
	}
	Const struct{ V any }
	Enum  struct{ V []any }
	Def   struct {
		D    any
		Base Ty
	}
	List  struct{ E Ty }
	Tuple struct{ E []Ty }
	Or    struct{ T []Ty }
	Map   struct{ E Ty }
	Field struct {
		Name string
		Opt  bool
		T    Ty
	}
	Struct struct {
		F    []Field
		Open bool
	}
)

func lit(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case Num:
		return string(x)
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, lit(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for _, k := range keysOf(x) {
			p = append(p, strconv.Quote(k)+":"+lit(x[k]))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	panic(fmt.Sprintf("lit %T", v))
}

func keysOf[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func (t Scalar) cue() string  { return t.K }
func (t Range) cue() string   { return t.Text }
func (t Pattern) cue() string { return t.Text }
func (t Pred) cue() string    { return t.Text }
func (t Const) cue() string   { return lit(t.V) }
func (t Enum) cue() string {
	var p []string
	for _, v := range t.V {
		p = append(p, lit(v))
	}
	return strings.Join(p, " | ")
}
func (t Def) cue() string {
	if e, ok := t.Base.(Enum); ok {
		var p []string
		for _, v := range e.V {
			if lit(v) == lit(t.D) {
				p = append(p, "*"+lit(v))
			} else {
				p = append(p, lit(v))
			}
		}
		return strings.Join(p, " | ")
	}
	return "*" + lit(t.D) + " | " + t.Base.cue()
}
func (t List) cue() string { return "[..." + paren(t.E) + "]" }
func (t Tuple) cue() string {
	var p []string
	for _, e := range t.E {
		p = append(p, paren(e))
	}
	return "[" + strings.Join(p, ", ") + "]"
}
func (t Or) cue() string {
	var p []string
	for _, e := range t.T {
		p = append(p, paren(e))
	}
	return strings.Join(p, " | ")
}
func (t Map) cue() string { return "{[string]: " + paren(t.E) + "}" }
func (t Struct) cue() string {
	var p []string
	for _, f := range t.F {
		o := ""
		if f.Opt {
			o = "?"
		}
		p = append(p, label(f.Name)+o+": "+f.T.cue())
	}
	if t.Open {
		p = append(p, "...")
	}
	return "{" + strings.Join(p, ", ") + "}"
}

func label(s string) string {
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9') {
			return strconv.Quote(s)
		}
	}
	if s == "" || s == "null" || s == "true" || s == "false" || s == "if" || s == "for" || s == "in" || s == "let" {
		return strconv.Quote(s)
	}
	return s
}

func paren(t Ty) string {
	switch t.(type) {
	case Or, Def, Enum, Range, Pattern, Pred:
		return "(" + t.cue() + ")"
	}
	return t.cue()
}

// complete is the value a required field takes when absent from the data, if
// the schema alone determines one.
func complete(t Ty) (any, bool) {
	switch x := t.(type) {
	case Scalar:
		if x.K == "null" {
			return nil, true
		}
		return nil, false
	case Const:
		return x.V, true
	case Def:
		return x.D, true
	case Enum:
		if len(x.V) == 1 {
			return x.V[0], true
		}
		return nil, false
	case List:
		return []any{}, true
	case Map:
		return map[string]any{}, true
	case Tuple:
		out := []any{}
		for _, e := range x.E {
			v, ok := complete(e)
			if !ok {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	case Struct:
		return accept(t, map[string]any{})
	case Ref:
		return complete(x.T)
	case Or, Range, Pattern, Pred:
		return nil, false
	}
	panic(fmt.Sprintf("complete %T", t))
}

// accept decides membership of v in t and returns v with the defaults of all
// required fields filled in.
func accept(t Ty, v any) (any, bool) {
	switch x := t.(type) {
	case Scalar:
		switch x.K {
		case "_":
			return v, true
		case "null":
			return v, v == nil
		case "bool":
			_, ok := v.(bool)
			return v, ok
		case "string":
			_, ok := v.(string)
			return v, ok
		case "int":
			n, ok := v.(Num)
			return v, ok && n.isInt()
		case "float":
			n, ok := v.(Num)
			return v, ok && !n.isInt()
		case "number":
			_, ok := v.(Num)
			return v, ok
		}
		panic("scalar " + x.K)
	case Range:
		n, ok := v.(Num)
		if !ok || !n.isInt() {
			return v, false
		}
		i, err := strconv.ParseInt(string(n), 10, 64)
		return v, err == nil && i >= x.Lo && i <= x.Hi
	case Pattern:
		s, ok := v.(string)
		return v, ok && strings.HasPrefix(s, x.Prefix)
	case Ref:
		return accept(x.T, v)
	case Pred:
		return v, x.F(v)
	case Const:
		return v, lit(v) == lit(x.V)
	case Enum:
		for _, e := range x.V {
			if lit(e) == lit(v) {
				return v, true
			}
		}
		return v, false
	case Def:
		if lit(v) == lit(x.D) {
			return v, true
		}
		return accept(x.Base, v)
	case Or:
		// Branches are eliminated by conflicts only; if more than one is left, the
		// value is ambiguous.
		var left []Ty
		for _, e := range x.T {
			if possible(e, v) {
				left = append(left, e)
			}
		}
		if len(left) != 1 {
			return v, false
		}
		return accept(left[0], v)
	case List:
		l, ok := v.([]any)
		if !ok {
			return v, false
		}
		out := []any{}
		for _, e := range l {
			r, ok := accept(x.E, e)
			if !ok {
				return v, false
			}
			out = append(out, r)
		}
		return out, true
	case Tuple:
		l, ok := v.([]any)
		if !ok || len(l) != len(x.E) {
			return v, false
		}
		out := []any{}
		for i, e := range l {
			r, ok := accept(x.E[i], e)
			if !ok {
				return v, false
			}
			out = append(out, r)
		}
		return out, true
	case Map:
		m, ok := v.(map[string]any)
		if !ok {
			return v, false
		}
		out := map[string]any{}
		for k, e := range m {
			r, ok := accept(x.E, e)
			if !ok {
				return v, false
			}
			out[k] = r
		}
		return out, true
	case Struct:
		m, ok := v.(map[string]any)
		if !ok {
			return v, false
		}
		out := map[string]any{}
		names := map[string]bool{}
		for _, f := range x.F {
			names[f.Name] = true
			e, present := m[f.Name]
			if !present {
				if f.Opt {
					continue
				}
				d, ok := complete(f.T)
				if !ok {
					return v, false
				}
				out[f.Name] = d
				continue
			}
			r, ok := accept(f.T, e)
			if !ok {
				return v, false
			}
			out[f.Name] = r
		}
		for k, e := range m {
			if !names[k] {
				if !x.Open {
					return v, false
				}
				out[k] = e
			}
		}
		return out, true
	}
	panic(fmt.Sprintf("accept %T", t))
}

// possible is accept without the requirement that absent required fields have a
// value: it only fails on conflicts and undeclared fields.
func possible(t Ty, v any) bool {
	switch x := t.(type) {
	case Struct:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		names := map[string]bool{}
		for _, f := range x.F {
			names[f.Name] = true
			if e, present := m[f.Name]; present && !possible(f.T, e) {
				return false
			}
		}
		for k := range m {
			if !names[k] && !x.Open {
				return false
			}
		}
		return true
	case List:
		l, ok := v.([]any)
		for _, e := range l {
			ok = ok && possible(x.E, e)
		}
		return ok
	case Map:
		m, ok := v.(map[string]any)
		for _, e := range m {
			ok = ok && possible(x.E, e)
		}
		return ok
	case Tuple:
		l, ok := v.([]any)
		ok = ok && len(l) == len(x.E)
		for i := range l {
			ok = ok && possible(x.E[i], l[i])
		}
		return ok
	case Or:
		for _, e := range x.T {
			if possible(e, v) {
				return true
			}
		}
		return false
	case Ref:
		return possible(x.T, v)
	case Def:
		return lit(v) == lit(x.D) || possible(x.Base, v)
	}
	_, ok := accept(t, v)
	return ok
}

// ---------------------------------------------------------------------------
// Data plumbing, independent of the repository.

// mkdata turns a JSON value into a cue.Value.
func mkdata(rt *thema.Runtime, v any) cue.Value {
	return jsonData(rt, lit(v))
}

func jsonData(rt *thema.Runtime, js string) cue.Value {
	expr, err := cuejson.Extract("data.json", []byte(js))
	if err != nil {
		panic(fmt.Sprintf("harness: bad json %s: %s", js, err))
	}
	return rt.Context().BuildExpr(expr)
}

// canon parses JSON bytes into the model's data representation.
func canon(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return norm(v), nil
}

func norm(v any) any {
	switch x := v.(type) {
	case json.Number:
		return Num(x.String())
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = norm(x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k := range x {
			out[k] = norm(x[k])
		}
		return out
	}
	return v
}

// valueOf renders a cue.Value as canonical JSON text.
func valueOf(v cue.Value) string {
	b, err := v.MarshalJSON()
	if err != nil {
		return "ERR(" + err.Error() + ")"
	}
	c, err := canon(b)
	if err != nil {
		return "ERR(" + err.Error() + ")"
	}
	return lit(c)
}

// ---------------------------------------------------------------------------
// Lineage construction.

type SchSpec struct {
	V        [2]int
	Body     string // CUE struct text
	Examples string
}

type LensSpec struct {
	From, To [2]int
	Result   string
	Lacunas  string
}

type LinSpec struct {
	Imports string
	Name    string
	Join    string
	Schemas []SchSpec
	Lenses  []LensSpec
	NoLens  bool
}

func (l LinSpec) cue() string {
	var b strings.Builder
	b.WriteString(l.Imports)
	fmt.Fprintf(&b, "name: %q\n", l.Name)
	if l.Join != "" {
		fmt.Fprintf(&b, "joinSchema: %s\n", l.Join)
	}
	b.WriteString("schemas: [\n")
	for _, s := range l.Schemas {
		fmt.Fprintf(&b, "\t{version: [%d, %d], schema: %s", s.V[0], s.V[1], s.Body)
		if s.Examples != "" {
			fmt.Fprintf(&b, ", examples: %s", s.Examples)
		}
		b.WriteString("},\n")
	}
	b.WriteString("]\n")
	if !l.NoLens {
		b.WriteString("lenses: [\n")
		for _, s := range l.Lenses {
			fmt.Fprintf(&b, "\t{from: [%d, %d], to: [%d, %d], input: _, result: %s", s.From[0], s.From[1], s.To[0], s.To[1], s.Result)
			if s.Lacunas != "" {
				fmt.Fprintf(&b, ", lacunas: %s", s.Lacunas)
			}
			b.WriteString("},\n")
		}
		b.WriteString("]\n")
	}
	return b.String()
}

func bindText(rt *thema.Runtime, text string, opts ...thema.BindOption) (thema.Lineage, error) {
	v := rt.Context().CompileString(text, cue.Filename("lineage.cue"))
	if err := v.Err(); err != nil {
		panic(fmt.Sprintf("harness: lineage text does not compile: %s\n%s", err, text))
	}
	return thema.BindLineage(v, rt, opts...)
}

func sv(v [2]int) thema.SyntacticVersion { return thema.SV(uint(v[0]), uint(v[1])) }

func vstr(v [2]int) string { return fmt.Sprintf("%d.%d", v[0], v[1]) }

// lensPairs is the reference enumeration of the explicit lenses a set of
// versions entails, in the canonical order (to, then from).
func lensPairs(vs [][2]int) [][2][2]int {
	var out [][2][2]int // from, to
	for i := range vs {
		if i > 0 && vs[i][0] != vs[i-1][0] {
			out = append(out, [2][2]int{vs[i-1], vs[i]})
		}
		if i+1 < len(vs) {
			out = append(out, [2][2]int{vs[i+1], vs[i]})
		}
	}
	return out
}

// shapes enumerates all sequences of per-major schema counts.
func shapes(maxMajors, maxPer, maxTotal int) [][]int {
	var out [][]int
	var rec func(cur []int, tot int)
	rec = func(cur []int, tot int) {
		if len(cur) > 0 {
			out = append(out, append([]int{}, cur...))
		}
		if len(cur) == maxMajors {
			return
		}
		for n := 1; n <= maxPer && tot+n <= maxTotal; n++ {
			rec(append(cur, n), tot+n)
		}
	}
	rec(nil, 0)
	sort.SliceStable(out, func(i, j int) bool {
		a, b := 0, 0
		for _, x := range out[i] {
			a += x
		}
		for _, x := range out[j] {
			b += x
		}
		return a < b
	})
	return out
}

func versionsOf(shape []int) [][2]int {
	var vs [][2]int
	for maj, n := range shape {
		for m := 0; m < n; m++ {
			vs = append(vs, [2]int{maj, m})
		}
	}
	return vs
}

func shapeKey(shape []int) string {
	return strings.Trim(strings.ReplaceAll(fmt.Sprint(shape), " ", ","), "[]")
}
