package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/grafana/thema"
)

func init() {
	register(&Prop{
		ID: "C16",
		Rule: "a case is a (schema, Go type) pair in one binding form (pointer or value); NewT, then for every valid probe datum ValidateTyped, Value, BindInstanceType and a mutation of everything handed out, in sequence; " +
			"results are compared with the reference (data with defaults, zero values elsewhere); plus mismatched types and foreign instances; non-trivial: a default applies or the data is not empty",
		Gen: genC16,
	})
}

type f1[G any] struct {
	A G `json:"a"`
}
type f1o[G any] struct {
	A G `json:"a,omitempty"`
}
type f2[G, H any] struct {
	A G `json:"a"`
	B H `json:"b"`
}
type fN[G any] struct {
	N struct {
		A G `json:"a"`
	} `json:"n"`
}
type fNp[G any] struct {
	N *struct {
		A G `json:"a"`
	} `json:"n,omitempty"`
}
type fL[G any] struct {
	N []struct {
		A G `json:"a"`
	} `json:"n"`
}
type fK struct {
	K string `json:"k"`
	X int64  `json:"x"`
}

// zero is the reference for a Go value of the type of t that holds nothing but
// the schema's defaults.
func zeroed(t Ty) any {
	switch x := t.(type) {
	case Def:
		return x.D
	case Const:
		return x.V
	case Scalar:
		switch x.K {
		case "string":
			return ""
		case "bool":
			return false
		case "int", "float", "number":
			return Num("0")
		}
		return nil
	case Range:
		return Num("0")
	case Pattern:
		return ""
	case Enum:
		if _, ok := x.V[0].(string); ok {
			return ""
		}
		return Num("0")
	case List:
		return []any{}
	case Map:
		return map[string]any{}
	case Tuple:
		out := []any{}
		for _, e := range x.E {
			out = append(out, zeroed(e))
		}
		return out
	case Struct:
		m := map[string]any{}
		for _, f := range x.F {
			if !f.Opt {
				m[f.Name] = zeroed(f.T)
			}
		}
		return m
	}
	return nil
}

// nonil removes the difference between nil and empty slices and maps, which Go
// values of a list or map type may take on either way.
func nonil(t Ty, v any) any {
	switch x := t.(type) {
	case Def:
		return nonil(x.Base, v)
	case List:
		if v == nil {
			return []any{}
		}
		if l, ok := v.([]any); ok {
			out := []any{}
			for _, e := range l {
				out = append(out, nonil(x.E, e))
			}
			return out
		}
	case Map:
		if v == nil {
			return map[string]any{}
		}
	case Struct:
		if m, ok := v.(map[string]any); ok {
			out := map[string]any{}
			for k, e := range m {
				out[k] = e
			}
			for _, f := range x.F {
				if e, ok := m[f.Name]; ok {
					if f.Opt && (e == nil || lit(e) == "[]" || lit(e) == "{}") {
						delete(out, f.Name)
					} else {
						out[f.Name] = nonil(f.T, e)
					}
				}
			}
			return out
		}
	}
	return v
}

func goVal(t Ty, v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "ERR(" + err.Error() + ")"
	}
	c, err := canon(b)
	if err != nil {
		return "ERR(" + err.Error() + ")"
	}
	return lit(nonil(t, c))
}

// scribble overwrites everything reachable from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled"), reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77)
		}
	}
}

// c16Case checks one schema against one Go type S, bound as *S or S.
func c16Case[S any](g *Gen, name string, ty Struct) {
	run := func(t *T, mk func(sch thema.Schema) (newT func() any, typed func(d any) (any, any, error), bindInst func(i *thema.Instance) (any, error), err error)) {
		lin := mustBind(t, LinSpec{Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: ty.cue()}}})
		newT, typed, bindInst, err := mk(lin.First())
		t.Step()
		if err != nil {
			t.Fatal("bind", "schema %s: binding the type failed: %s", ty.cue(), err)
		}
		wantNew := lit(zeroed(ty))
		if ft := gtype[S]().Field(0).Type; ft.Kind() == reflect.Ptr && !ty.F[0].Opt {
			// a pointer holds nil where there is no default
			z := zeroed(ty).(map[string]any)
			_, isStruct := ty.F[0].T.(Struct)
			if _, ok := complete(ty.F[0].T); !ok && !isStruct {
				z["a"] = nil
				wantNew = lit(z)
			}
		}
		checkNew := func(when string) {
			v := newT()
			t.Step()
			t.Checked("NewT", true)
			if got := goVal(ty, v); got != wantNew {
				t.Fail("NewT "+when, "schema %s: NewT is %s, expected %s", ty.cue(), got, wantNew)
			}
			scribble(reflect.ValueOf(v))
		}
		checkNew("first")
		checkNew("again")
		seen := map[string]bool{}
		dataFor(ty, probeValues, func(d any) {
			js := lit(d)
			if seen[js] {
				return
			}
			seen[js] = true
			full, ok := accept(ty, d)
			t.State(js)
			inst, v, err := typed(d)
			t.Step()
			if ok != (err == nil) {
				t.Fail("typed "+js, "schema %s data %s: expected valid=%v, got %v", ty.cue(), js, ok, err)
				return
			}
			if !ok {
				t.Checked("reject", true)
				return
			}
			t.Checked("value", js != lit(full) || js != "{}")
			want := lit(nonil(ty, full))
			if got := goVal(ty, v); !sameNum(got, want) {
				t.Fail("value "+js, "schema %s data %s: typed value is %s, expected %s", ty.cue(), js, got, want)
			}
			scribble(reflect.ValueOf(v))
			v2, err := bindInst(inst.(*thema.Instance))
			t.Step()
			if err != nil {
				t.Fail("bindinst "+js, "%s", err)
			} else if got := goVal(ty, v2); !sameNum(got, want) {
				t.Fail("bindinst "+js, "schema %s data %s: typed value is %s, expected %s", ty.cue(), js, got, want)
			}
			scribble(reflect.ValueOf(v2))
		})
		checkNew("after")
		t.Sample("%s bound to %T", ty.cue(), *new(S))
	}
	g.Case(name+" ptr", func(t *T) {
		run(t, func(sch thema.Schema) (func() any, func(any) (any, any, error), func(*thema.Instance) (any, error), error) {
			return c16Bind[*S](t, sch, new(S))
		})
	})
	g.Case(name+" val", func(t *T) {
		run(t, func(sch thema.Schema) (func() any, func(any) (any, any, error), func(*thema.Instance) (any, error), error) {
			return c16Bind[S](t, sch, *new(S))
		})
	})
	// bound twice, through a schema that is already typed
	g.Case(name+" rebound", func(t *T) {
		run(t, func(sch thema.Schema) (func() any, func(any) (any, any, error), func(*thema.Instance) (any, error), error) {
			ts, err := thema.BindType[*S](sch, new(S))
			if err != nil {
				return nil, nil, nil, err
			}
			return c16Bind[*S](t, ts, new(S))
		})
	})
}

func c16Bind[X any](t *T, sch thema.Schema, x X) (func() any, func(any) (any, any, error), func(*thema.Instance) (any, error), error) {
	ts, err := thema.BindType[X](sch, x)
	if err != nil {
		return nil, nil, nil, err
	}
	if ts.Version() != sch.Version() || ts.ConvergentLineage().TypedSchema() != ts || ts.ConvergentLineage().Name() != sch.Lineage().Name() {
		t.Fail("typed schema", "typed schema or its lineage is not that of the schema")
	}
	return func() any { return ts.NewT() },
		func(d any) (any, any, error) {
			ti, err := ts.ValidateTyped(mkdata(t.RT(), d))
			if err != nil {
				if ti != nil {
					t.Fail("inst+err "+lit(d), "typed instance together with an error")
				}
				return nil, nil, err
			}
			if ti.TypedSchema() != ts || valueOf(ti.Underlying()) != lit(d) {
				t.Fail("inst "+lit(d), "typed instance has other schema or data")
			}
			v, err := ti.Value()
			if err != nil {
				t.Fail("value "+lit(d), "Value failed: %s", err)
			}
			if got := goJSON(ti.ValueP()); got != goJSON(v) {
				t.Fail("valuep "+lit(d), "ValueP %s differs from Value %s", got, goJSON(v))
			}
			return ti.Instance, v, nil
		},
		func(i *thema.Instance) (any, error) {
			ti, err := thema.BindInstanceType[X](i, ts)
			if err != nil {
				return nil, err
			}
			return ti.Value()
		}, nil
}

func genC16(g *Gen) {
	leaf := func(n string) Ty {
		for _, l := range asgTypes {
			if l.Name == n {
				return l.T
			}
		}
		panic(n)
	}
	// every leaf type with its Go types, required, optional, nested, in lists
	leafCases := func(n string, f func(n string, t Ty)) { f(n, leaf(n)) }
	str := func(n string, t Ty) {
		c16Case[f1[string]](g, "string "+n, st(req("a", t)))
		c16Case[f1[*string]](g, "*string "+n, st(req("a", t)))
		c16Case[f1o[*string]](g, "opt *string "+n, st(opt("a", t)))
		c16Case[fN[string]](g, "nested string "+n, st(req("n", st(req("a", t)))))
		c16Case[fNp[string]](g, "optnested string "+n, st(opt("n", st(req("a", t)))))
		c16Case[fL[string]](g, "list string "+n, st(req("n", List{st(req("a", t))})))
		c16Case[f2[string, bool]](g, "string "+n+" with booldef", st(req("a", t), req("b", leaf("booldef"))))
		c16Case[f2[string, []string]](g, "string "+n+" with deflist", st(req("a", t), req("b", leaf("*[a]|[...string]"))))
	}
	for _, n := range []string{"string", "pat", "enum", "enumdef", "enumdefb", "strdef", "const"} {
		leafCases(n, str)
	}
	num := func(n string, t Ty) {
		c16Case[f1[int64]](g, "int64 "+n, st(req("a", t)))
		c16Case[f1[*int64]](g, "*int64 "+n, st(req("a", t)))
		c16Case[f1o[*int64]](g, "opt *int64 "+n, st(opt("a", t)))
		c16Case[fN[int64]](g, "nested int64 "+n, st(req("n", st(req("a", t)))))
		c16Case[fNp[int64]](g, "optnested int64 "+n, st(opt("n", st(req("a", t)))))
		c16Case[fL[int64]](g, "list int64 "+n, st(req("n", List{st(req("a", t))})))
		c16Case[f2[int64, string]](g, "int64 "+n+" with strdef", st(req("a", t), req("b", leaf("strdef"))))
	}
	for _, n := range []string{"1..3", "uint8", "int32", "int64", "0..300", "def4in0..300", "def4int64", "1|2", "7"} {
		leafCases(n, num)
	}
	for _, n := range []string{"bool", "booldef"} {
		leafCases(n, func(n string, t Ty) {
			c16Case[f1[bool]](g, "bool "+n, st(req("a", t)))
			c16Case[f1o[*bool]](g, "opt *bool "+n, st(opt("a", t)))
			c16Case[fN[bool]](g, "nested bool "+n, st(req("n", st(req("a", t)))))
			c16Case[fL[bool]](g, "list bool "+n, st(req("n", List{st(req("a", t))})))
		})
	}
	for _, n := range []string{"[...string]", "*[]|[...string]", "*[a]|[...string]"} {
		leafCases(n, func(n string, t Ty) {
			c16Case[f1[[]string]](g, "[]string "+n, st(req("a", t)))
			c16Case[f1o[[]string]](g, "opt []string "+n, st(opt("a", t)))
			c16Case[fN[[]string]](g, "nested []string "+n, st(req("n", st(req("a", t)))))
			c16Case[fL[[]string]](g, "list []string "+n, st(req("n", List{st(req("a", t))})))
		})
	}
	c16Case[f1[[]int64]](g, "[]int64", st(req("a", leaf("[...int64]"))))
	c16Case[f1[[2]int64]](g, "[2]int64", st(req("a", leaf("[int64,int64]"))))
	c16Case[f1[[2]string]](g, "[2]string", st(req("a", leaf("[string,string]"))))
	c16Case[f1[[1]int64]](g, "[1]int64", st(req("a", leaf("[int64]"))))
	c16Case[f1[[][]string]](g, "[][]string", st(req("a", leaf("[...[...string]]"))))
	c16Case[f1[map[string]int64]](g, "map int64", st(req("a", leaf("map64"))))
	c16Case[f1o[map[string]int64]](g, "opt map int64", st(opt("a", leaf("map64"))))
	c16Case[f1[map[string]string]](g, "map string", st(req("a", leaf("mapstring"))))
	c16Case[f1[sX]](g, "struct", st(req("a", leaf("{x:int64}"))))
	c16Case[f1[*sX]](g, "*struct", st(req("a", leaf("{x:int64}"))))
	c16Case[f1o[*sX]](g, "opt *struct", st(opt("a", leaf("{x:int64}"))))
	c16Case[f1[sX]](g, "structdef", st(req("a", leaf("{x:defint64}"))))
	c16Case[f1o[*sX]](g, "opt *structdef", st(opt("a", leaf("{x:defint64}"))))
	c16Case[f1[sXp]](g, "structopt", st(req("a", leaf("{x?:int64}"))))
	c16Case[f1[[]sX]](g, "[]struct", st(req("a", leaf("[...{x:int64}]"))))
	c16Case[f1[[]*sX]](g, "[]*struct", st(req("a", leaf("[...{x:int64}]"))))
	c16Case[f1[[]sXp]](g, "[]structopt", st(req("a", leaf("[...{x?:int64}]"))))
	c16Case[f1[float64]](g, "float64", st(req("a", leaf("float"))))
	for _, n := range []string{"any", "str|int", "[...string]", "{x:int64}", "string", "intdef"} {
		c16Case[f1o[*any]](g, "any "+n, st(opt("a", leaf(n))))
	}

	// Types that are not assignable are not bound.
	for _, l := range asgTypes {
		l := l
		g.Case("mismatch "+l.Name, func(t *T) {
			ty := st(req("a", l.T))
			lin := mustBind(t, LinSpec{Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: ty.cue()}}})
			c16Mismatch[f1[string]](t, lin.First(), ty)
			c16Mismatch[f1[int64]](t, lin.First(), ty)
			c16Mismatch[f1[uint8]](t, lin.First(), ty)
			c16Mismatch[f1[bool]](t, lin.First(), ty)
			c16Mismatch[f1[float64]](t, lin.First(), ty)
			c16Mismatch[f1[[]string]](t, lin.First(), ty)
			c16Mismatch[f1[[2]int64]](t, lin.First(), ty)
			c16Mismatch[f1[sX]](t, lin.First(), ty)
			c16Mismatch[f1[map[string]string]](t, lin.First(), ty)
			c16Mismatch[f1[any]](t, lin.First(), ty)
			c16Mismatch[f2[string, string]](t, lin.First(), ty)
			c16Mismatch[sE](t, lin.First(), ty)
		})
	}

	// Instances of other schemas are not bound.
	g.Case("foreign", func(t *T) {
		spec := LinSpec{Name: "lin", NoLens: true, Schemas: []SchSpec{
			{V: [2]int{0, 0}, Body: "{k: string, x: int64}"}, {V: [2]int{0, 1}, Body: "{k: string, x: int64, o?: int}"}, {V: [2]int{1, 0}, Body: "{k: string, x: int64, p: *1 | int}"}}}
		linA, linB := mustBind(t, spec), mustBind(t, spec)
		ts, err := thema.BindType[*fK](linA.First(), &fK{})
		if err != nil {
			t.Fatal("bind", "%s", err)
		}
		d := obj("k", "s", "x", Num("1"))
		for li, lin := range []thema.Lineage{linA, linB} {
			for i, sch := range lin.All() {
				inst := mustValidate(t, sch, d)
				ti, err := thema.BindInstanceType[*fK](inst, ts)
				t.Step()
				t.State(fmt.Sprint(li, i))
				t.Checked("foreign", true)
				want := li == 0 && i == 0
				if want != (err == nil) || want != (ti != nil) {
					t.Fail(fmt.Sprint(li, i), "bind of an instance of lineage %d schema %s: %v", li, sch.Version(), err)
				}
			}
		}
	})
}

func c16Mismatch[S any](t *T, sch thema.Schema, ty Struct) {
	want := asg(ty, gtype[S]())
	if want == open {
		return
	}
	ts, err := thema.BindType[*S](sch, new(S))
	t.Step()
	n := fmt.Sprintf("%T", *new(S))
	t.State(n)
	t.Checked("mismatch", want == no)
	if (want == yes) != (err == nil) {
		t.Fail(n, "schema %s type %s: expected bindable=%v, got %v", ty.cue(), n, want == yes, err)
	}
	if err != nil && ts != nil {
		t.Fail(n, "typed schema together with an error")
	}
}
