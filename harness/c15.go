package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/grafana/thema"
)

func init() {
	register(&Prop{
		ID: "C15",
		Rule: "a case is a schema field type in one wrapping (plain, optional, nested struct, list, map) or a pair of field sets; every Go type of the alphabet in every wrapping is checked and compared with the reference relation; " +
			"pairs whose verdict the documentation leaves open are only required not to panic; non-trivial: the verdict is specified",
		Gen: genC15,
	})
}

func gtype[X any]() reflect.Type { var x X; return reflect.TypeOf(&x).Elem() }

type sX struct {
	X int64 `json:"x"`
}
type sXp struct {
	X *int64 `json:"x,omitempty"`
}
type sXs struct {
	X string `json:"x"`
}
type sXW struct {
	X int64 `json:"x"`
	W int64 `json:"w"`
}
type sXany struct {
	X any `json:"x"`
}
type sXraw struct {
	X    int64 `json:"x"`
	Skip int64 `json:"-"`
	priv int64
}
type sXun struct{ X int64 }
type sE struct{}

var bigInt = gtype[big.Int]()

var goTypes = []reflect.Type{
	gtype[string](), gtype[bool](), gtype[int](), gtype[int8](), gtype[int16](), gtype[int32](), gtype[int64](),
	gtype[uint](), gtype[uint8](), gtype[uint16](), gtype[uint32](), gtype[uint64](), gtype[float32](), gtype[float64](), bigInt, gtype[*big.Int](),
	gtype[any](), gtype[*string](), gtype[*bool](), gtype[*int64](), gtype[*uint8](), gtype[*float64](),
	gtype[[]string](), gtype[[]int64](), gtype[[]*string](), gtype[[]any](), gtype[*[]string](), gtype[[][]string](),
	gtype[[1]int64](), gtype[[2]int64](), gtype[[2]int8](), gtype[[3]int8](), gtype[[3]int64](), gtype[[2]sX](), gtype[[2]sXp](), gtype[[][2]int64](), gtype[[2]string](), gtype[[2]any](), gtype[[3]any](),
	gtype[map[string]int64](), gtype[map[string]string](), gtype[map[string]any](), gtype[*map[string]int64](),
	gtype[sX](), gtype[*sX](), gtype[sXp](), gtype[sXs](), gtype[sXW](), gtype[sXany](), gtype[sXraw](), gtype[sXun](), gtype[sE](),
	gtype[[]sX](), gtype[[]*sX](), gtype[[]sXp](), gtype[[]sXs](),
	gtype[[]byte](), gtype[chan int](), gtype[func()](), gtype[complex128](),
}

var i64 = Range{-9223372036854775808, 9223372036854775807, "int64"}

var i8 = Range{-128, 127, "int8"}

// schema types beyond the shared alphabet
var asgTypes = append(append([]namedTy{}, leafTypes...), []namedTy{
	{"0..300", Range{0, 300, "int & >=0 & <=300"}},
	{"-1..1", Range{-1, 1, "int & >=-1 & <=1"}},
	{"uint64", Range{0, 0, "uint64"}},
	{"uint", Range{0, 0, "uint"}},
	{"<=300", Range{0, 0, "int & <=300"}},
	{"int16", Range{-32768, 32767, "int16"}},
	{"uint32", Range{0, 4294967295, "uint32"}},
	{"def4in0..300", Def{Num("4"), Range{0, 300, "(int & >=0 & <=300)"}}},
	{"def4int64", Def{Num("4"), i64}},
	{"null", tNull},
	{"null|int64", Or{[]Ty{tNull, i64}}},
	{"null|bool", Or{[]Ty{tNull, tBool}}},
	{"bool|string", Or{[]Ty{tBool, tString}}},
	{"bytes", Scalar{"bytes"}},
	{"1|2", Enum{[]any{Num("1"), Num("2")}}},
	{"1|300", Enum{[]any{Num("1"), Num("300")}}},
	{"a|1", Enum{[]any{"a", Num("1")}}},
	{"true", Const{true}},
	{"7", Const{Num("7")}},
	{"1.5|2.5", Enum{[]any{Num("1.5"), Num("2.5")}}},
	{"[int64,int64]", Tuple{[]Ty{i64, i64}}},
	{"[string,string]", Tuple{[]Ty{tString, tString}}},
	{"[int64,int8]", Tuple{[]Ty{i64, i8}}},
	{"[int8,int64]", Tuple{[]Ty{i8, i64}}},
	{"[int8,int8]", Tuple{[]Ty{i8, i8}}},
	{"[int64,int8,int64]", Tuple{[]Ty{i64, i8, i64}}},
	{"[int64,int64,int8]", Tuple{[]Ty{i64, i64, i8}}},
	{"[int64,int64,int64]", Tuple{[]Ty{i64, i64, i64}}},
	{"[int64,string]", Tuple{[]Ty{i64, tString}}},
	{"[string,int64]", Tuple{[]Ty{tString, i64}}},
	{"[{x},{x}]", Tuple{[]Ty{st(req("x", i64)), st(req("x", i64))}}},
	{"[{x},{x?}]", Tuple{[]Ty{st(req("x", i64)), st(opt("x", i64))}}},
	{"[...[int64,int64]]", List{Tuple{[]Ty{i64, i64}}}},
	{"[int64]", Tuple{[]Ty{i64}}},
	{"[...int64]", List{i64}},
	{"*[]|[...string]", Def{arr(), List{tString}}},
	{"*[a]|[...string]", Def{arr("a"), List{tString}}},
	{"[...[...string]]", List{List{tString}}},
	{"{x:int64}", st(req("x", i64))},
	{"{x?:int64}", st(opt("x", i64))},
	{"{x:string}", st(req("x", tString))},
	{"{x:int64,w:int64}", st(req("x", i64), req("w", i64))},
	{"{X:int64}", st(req("X", i64))},
	{"{x:defint64}", st(req("x", Def{Num("1"), i64}))},
	{"{x:int64,...}", Struct{F: []Field{req("x", i64)}, Open: true}},
	{"[...{x:int64}]", List{st(req("x", i64))}},
	{"[...{x?:int64}]", List{st(opt("x", i64))}},
	{"map64", Map{i64}},
	{"mapstring", Map{tString}},
	{"structunion", Or{[]Ty{st(req("x", i64)), st(req("y", i64))}}},
	{"{}", st()},
}...)

// bounds of an integer type; nil is unbounded
func intBounds(t Ty) (lo, hi *big.Int, ok bool) {
	switch x := t.(type) {
	case Scalar:
		return nil, nil, x.K == "int"
	case Range:
		switch x.Text {
		case "uint64":
			return big.NewInt(0), new(big.Int).SetUint64(1<<64 - 1), true
		case "uint":
			return big.NewInt(0), nil, true
		case "int & <=300":
			return nil, big.NewInt(300), true
		}
		return big.NewInt(x.Lo), big.NewInt(x.Hi), true
	case Def:
		return intBounds(x.Base)
	case Const:
		return intBounds(Enum{[]any{x.V}})
	case Enum:
		for _, v := range x.V {
			n, isn := v.(Num)
			if !isn || !n.isInt() {
				return nil, nil, false
			}
			b, _ := new(big.Int).SetString(string(n), 10)
			if lo == nil || b.Cmp(lo) < 0 {
				lo = b
			}
			if hi == nil || b.Cmp(hi) > 0 {
				hi = b
			}
		}
		return lo, hi, true
	}
	return nil, nil, false
}

func isStringTy(t Ty) bool {
	switch x := t.(type) {
	case Scalar:
		return x.K == "string"
	case Pattern:
		return true
	case Def:
		return isStringTy(x.Base)
	case Const:
		_, ok := x.V.(string)
		return ok
	case Enum:
		for _, v := range x.V {
			if _, ok := v.(string); !ok {
				return false
			}
		}
		return true
	}
	return false
}

func isBoolTy(t Ty) bool {
	switch x := t.(type) {
	case Scalar:
		return x.K == "bool"
	case Def:
		return isBoolTy(x.Base)
	case Const:
		_, ok := x.V.(bool)
		return ok
	}
	return false
}

func isFloatTy(t Ty) bool {
	switch x := t.(type) {
	case Scalar:
		return x.K == "float"
	case Enum:
		for _, v := range x.V {
			n, ok := v.(Num)
			if !ok || n.isInt() {
				return false
			}
		}
		return true
	}
	return false
}

type tri int

const (
	no tri = iota
	yes
	open // not specified
)

func and3(a, b tri) tri {
	if a == no || b == no {
		return no
	}
	if a == open || b == open {
		return open
	}
	return yes
}

// asg is the reference assignability relation (docs/invariants.md).
func asg(t Ty, g reflect.Type) tri {
	isAny := func(x reflect.Type) bool { return x.Kind() == reflect.Interface && x.NumMethod() == 0 }
	if isAny(g) {
		return yes
	}
	// a disjunction with null needs a pointer
	if or, ok := t.(Or); ok {
		if len(or.T) == 2 && or.T[0] == Ty(tNull) {
			if g.Kind() != reflect.Ptr {
				return no
			}
			if g.Elem() == bigInt {
				return open
			}
			return asg(or.T[1], g.Elem())
		}
		return no
	}
	if d, ok := t.(Def); ok {
		switch d.Base.(type) {
		case List, Struct:
			return asg(d.Base, g)
		}
	}
	if g.Kind() == reflect.Ptr {
		g = g.Elem()
		if isAny(g) {
			return open
		}
	}
	if s, ok := t.(Scalar); ok {
		switch s.K {
		case "_", "null":
			return no
		case "number":
			if g.Kind() == reflect.Float64 || g.Kind() == reflect.Float32 {
				return open
			}
			return no
		case "bytes":
			if g == gtype[[]byte]() {
				return yes
			}
			return no
		}
	}
	if isStringTy(t) {
		if g.Kind() == reflect.String {
			return yes
		}
		return no
	}
	if isBoolTy(t) {
		if g.Kind() == reflect.Bool {
			return yes
		}
		return no
	}
	if isFloatTy(t) {
		if g.Kind() == reflect.Float64 {
			return yes
		}
		if g.Kind() == reflect.Float32 {
			return open
		}
		return no
	}
	if lo, hi, ok := intBounds(t); ok {
		if g == bigInt {
			return yes
		}
		var glo, ghi *big.Int
		switch g.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			ghi = new(big.Int).Lsh(big.NewInt(1), uint(g.Bits()-1))
			glo = new(big.Int).Neg(ghi)
			ghi.Sub(ghi, big.NewInt(1))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			glo = big.NewInt(0)
			ghi = new(big.Int).Lsh(big.NewInt(1), uint(g.Bits()))
			ghi.Sub(ghi, big.NewInt(1))
		default:
			return no
		}
		if lo == nil || hi == nil || lo.Cmp(glo) < 0 || hi.Cmp(ghi) > 0 {
			return no
		}
		return yes
	}
	switch x := t.(type) {
	case List:
		if g.Kind() != reflect.Slice || g == gtype[[]byte]() {
			return no
		}
		return asg(x.E, g.Elem())
	case Tuple:
		for _, e := range x.E {
			if e.cue() != x.E[0].cue() {
				return no
			}
		}
		if g.Kind() != reflect.Array || g.Len() != len(x.E) {
			return no
		}
		return asg(x.E[0], g.Elem())
	case Map:
		if g.Kind() != reflect.Map {
			return no
		}
		return asg(x.E, g.Elem())
	case Struct:
		if g.Kind() == reflect.Map && len(x.F) == 0 {
			return open
		}
		if g.Kind() != reflect.Struct || g == bigInt {
			return no
		}
		gf := map[string]reflect.Type{}
		for i := 0; i < g.NumField(); i++ {
			f := g.Field(i)
			if f.PkgPath != "" {
				continue
			}
			n := strings.Split(f.Tag.Get("json"), ",")[0]
			if n == "-" {
				continue
			}
			switch f.Type.Kind() {
			case reflect.Chan, reflect.Func, reflect.Complex128:
				if len(x.F) == 0 {
					return open
				}
			}
			if n == "" {
				n = f.Name
			}
			gf[n] = f.Type
		}
		if len(gf) != len(x.F) {
			return no
		}
		r := yes
		for _, f := range x.F {
			ft, ok := gf[f.Name]
			if !ok {
				return no
			}
			r = and3(r, asg(f.T, ft))
		}
		return r
	}
	return no
}

func sfield(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(`json:"` + tag + `"`)}
}

func genC15(g *Gen) {
	type wrap struct {
		n string
		t func(Ty) Ty
		g func(reflect.Type) reflect.Type
	}
	wraps := []wrap{
		{"", func(t Ty) Ty { return t }, func(r reflect.Type) reflect.Type { return r }},
		{"{b}", func(t Ty) Ty { return st(req("b", t)) }, func(r reflect.Type) reflect.Type {
			return reflect.StructOf([]reflect.StructField{sfield("B", r, "b")})
		}},
		{"[...]", func(t Ty) Ty { return List{t} }, reflect.SliceOf},
		{"map", func(t Ty) Ty { return Map{t} }, func(r reflect.Type) reflect.Type { return reflect.MapOf(gtype[string](), r) }},
	}
	check := func(t *T, sch thema.Schema, ty Ty, gt reflect.Type, T any, sig string) {
		want := asg(ty, gt)
		err := thema.AssignableTo(sch, T)
		t.Step()
		t.State(sig)
		t.Checked(fmt.Sprintf("spec=%d", want), want != open)
		if want == yes && err != nil {
			t.Fail(sig, "schema %s must be assignable to %s: %s", ty.cue(), gt, err)
		}
		if want == no && err == nil {
			t.Fail(sig, "schema %s must not be assignable to %s, but is accepted", ty.cue(), gt)
		}
		if err != nil && strings.TrimSpace(err.Error()) == "" {
			t.Fail(sig, "empty error")
		}
	}
	one := func(t *T, ty Ty) thema.Schema {
		lin := mustBind(t, LinSpec{Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: ty.cue()}}})
		return lin.First()
	}
	for _, l := range asgTypes {
		for wi, w := range wraps {
			for _, o := range []bool{false, true} {
				if o && wi > 0 {
					continue
				}
				if l.T == Ty(tAny) && w.n == "map" {
					continue
				}
				l, w, o, wi := l, w, o, wi
				g.Case(fmt.Sprintf("a%s:%s(%s)", map[bool]string{true: "?"}[o], w.n, l.Name), func(t *T) {
					ty := st(Field{Name: "a", Opt: o, T: w.t(l.T)})
					sch := one(t, ty)
					for _, gt := range goTypes {
						for wj, w2 := range wraps {
							if wj != wi && wj != 0 && wi != 0 {
								continue
							}
							s := reflect.StructOf([]reflect.StructField{sfield("A", w2.g(gt), "a")})
							check(t, sch, ty, s, reflect.New(s).Interface(), w2.n+gt.String())
						}
					}
					t.Sample("%s against %d Go types", ty.cue(), len(goTypes))
				})
			}
		}
	}

	// Field sets: names, tags and extra or missing fields, at the top and nested.
	type goF struct {
		name, tag string
		t         reflect.Type
	}
	var goSets [][]goF
	as := []goF{{}, {"A", "a", gtype[string]()}, {"A", "a,omitempty", gtype[*string]()}, {"A", "a", gtype[int64]()}, {"A", "aa", gtype[string]()}}
	bs := []goF{{}, {"B", "b", gtype[int64]()}, {"B", "b,omitempty", gtype[*int64]()}, {"B", "b", gtype[any]()}, {"B", "a_b", gtype[int64]()}}
	cs := []goF{{}, {"C", "c", gtype[bool]()}, {"C", "-", gtype[bool]()}}
	for _, a := range as {
		for _, b := range bs {
			for _, c := range cs {
				var set []goF
				for _, f := range []goF{a, b, c} {
					if f.name != "" {
						set = append(set, f)
					}
				}
				goSets = append(goSets, set)
			}
		}
	}
	var schSets []Struct
	for m := 0; m < 27; m++ {
		var fs []Field
		for i, n := range []string{"a", "b", "c"} {
			k := m
			for j := 0; j < i; j++ {
				k /= 3
			}
			ty := []Ty{tString, i64, tBool}[i]
			switch k % 3 {
			case 1:
				fs = append(fs, req(n, ty))
			case 2:
				fs = append(fs, opt(n, ty))
			}
		}
		schSets = append(schSets, st(fs...))
	}
	mk := func(set []goF) reflect.Type {
		var fs []reflect.StructField
		for _, f := range set {
			fs = append(fs, sfield(f.name, f.t, f.tag))
		}
		return reflect.StructOf(fs)
	}
	for _, s := range schSets {
		for _, nest := range []string{"top", "nested", "inlist", "beside"} {
			s, nest := s, nest
			g.Case("set "+nest+" "+s.cue(), func(t *T) {
				ty := Ty(s)
				switch nest {
				case "nested":
					ty = st(req("n", s))
				case "inlist":
					ty = st(req("n", List{s}))
				case "beside":
					ty = st(req("n", s), opt("z", st(req("a", tString))))
				}
				sch := one(t, ty)
				for _, set := range goSets {
					gt := mk(set)
					switch nest {
					case "nested":
						gt = reflect.StructOf([]reflect.StructField{sfield("N", gt, "n")})
					case "inlist":
						gt = reflect.StructOf([]reflect.StructField{sfield("N", reflect.SliceOf(gt), "n")})
					case "beside":
						gt = reflect.StructOf([]reflect.StructField{sfield("N", gt, "n"), sfield("Z", gtype[*struct {
							A string `json:"a"`
						}](), "z,omitempty")})
					}
					check(t, sch, ty, gt, reflect.New(gt).Interface(), gt.String())
					if nest == "top" {
						check(t, sch, ty, gt, reflect.New(gt).Elem().Interface(), "val "+gt.String())
					}
				}
			})
		}
	}

	// Types that the rules do not name: what is accepted must be able to hold every instance.
	dynTypes := []string{
		"null | string", "*null | string", "null | int64", "null | [...string]", "*null | [...string]", "null | {x: int64}", "*null | {x: int64}", "null | [int64, int64]", "null | bool | string", "null | {[string]: int64}",
		"[int64, ...int64]", "[int64, ...string]", "[string, ...int64]", "[int64, ...int8]", "[int8, ...int64]", "[int64, int64, ...int64]", "[...int64] | [...string]", "[...string] | [...int64]",
		"*[] | [...int64] | [...string]", "*[] | [...string] | [...int64]", "*[\"a\"] | [\"b\"]", "*[1] | [...int64]", "*[1] | [2]", "*[1, 2] | [...int64]", "*[1, 2] | [int64, int64]", "[string] | [...int64]", "*[1] | [...int64] | [int64, int64]", "*[1, 2] | [int64]",
		"string | {x: int64}", "string | [...string]", "[...string] | {x: int64}", "[...(null | string)]", "[...(null | {x: int64})]", "{[string]: null | int64}", "{x: int64, [string]: int64}", "{x: int64} | *{x: 1}", "*{x: 1} | {x: int64}",
		"{x: null | int64}", "{x?: null | int64}", "[...{x: null | int64}]", "[_, _]", "[...]", "[int64, _]", "_", "{x: _}", "bool | [...bool]", "int64 | string", "*1 | int64 | string", "*\"a\" | int64", "1 | \"a\" | null", "int64 | float",
	}
	dynData := []string{`null`, `"a"`, `true`, `1`, `-1`, `300`, `1.5`, `9223372036854775807`, `[]`, `["a"]`, `["b"]`, `[1]`, `[300]`, `[2]`, `[1,2]`, `[300,2]`, `[2,300]`, `[1,2,3]`, `[1,"a"]`, `["a",1]`, `[null]`, `["a",null]`, `[true]`,
		`[{"x":1}]`, `[{"x":1},null]`, `[{"x":null}]`, `[[1,2]]`, `{}`, `{"x":1}`, `{"x":null}`, `{"x":"a"}`, `{"x":1,"y":2}`, `{"a":1}`, `{"b":null}`, `{"a":null,"b":1}`}
	for _, d := range dynTypes {
		for _, o := range []string{"", "?"} {
			for _, wrapped := range []bool{false, true} {
				d, o, wrapped := d, o, wrapped
				g.Case(fmt.Sprintf("dyn a%s: %s wrapped=%v", o, d, wrapped), func(t *T) {
					body, pre, post := "{a"+o+": "+d+"}", `{"a":`, `}`
					if wrapped {
						body, pre, post = "{n: {a"+o+": "+d+"}}", `{"n":{"a":`, `}}`
					}
					lin, err := bindText(t.RT(), "name: \"lin\"\nschemas: [{version: [0, 0], schema: "+body+"}]\nlenses: []\n")
					t.Step()
					if err != nil { // not all are possible in a schema
						t.State("unbindable")
						t.Checked("unbindable", false)
						return
					}
					var inst []string
					for _, x := range dynData {
						text := pre + x + post
						_, err := lin.First().Validate(t.RT().Context().CompileString(text))
						t.Step()
						if err == nil {
							inst = append(inst, text)
						}
					}
					n := 0
					for _, gt := range goTypes {
						if k := gt.Kind(); k == reflect.Float32 || gt == bigInt || gt == gtype[*big.Int]() {
							continue
						}
						s := reflect.StructOf([]reflect.StructField{sfield("A", gt, "a")})
						if wrapped {
							s = reflect.StructOf([]reflect.StructField{sfield("N", s, "n")})
						}
						err := thema.AssignableTo(lin.First(), reflect.New(s).Interface())
						t.Step()
						t.State(gt.String())
						if err != nil {
							t.Checked("refused", true)
							continue
						}
						n++
						for _, text := range inst {
							v := reflect.New(s)
							if err := json.Unmarshal([]byte(text), v.Interface()); err != nil {
								t.Fail(gt.String(), "schema %s is held assignable to %s, which cannot hold the instance %s: %s", body, s, text, err)
								continue
							}
							b, err := json.Marshal(v.Interface())
							if err != nil || !holdsJSON(string(b), text) {
								t.Fail(gt.String(), "schema %s is held assignable to %s, which holds the instance %s as %s", body, s, text, b)
							}
						}
						t.Checked("accepted", true)
					}
					t.Sample("%s: %d Go types accepted, %d instances", body, n, len(inst))
				})
			}
		}
	}

	// What may be handed in at the top.
	g.Case("top-level forms", func(t *T) {
		ty := st(req("x", i64))
		sch := one(t, ty)
		p := &sX{}
		for n, c := range map[string]struct {
			v    any
			want bool
		}{
			"value": {sX{}, true}, "pointer": {p, true}, "string": {"x", false}, "*string": {new(string), false},
			"map": {map[string]any{}, false}, "slice": {[]sX{}, false}, "int": {1, false}, "nil": {nil, false}, "*any": {new(any), false},
		} {
			err := thema.AssignableTo(sch, c.v)
			t.Step()
			t.State(n)
			t.Checked("top", true)
			if c.want != (err == nil) {
				t.Fail(n, "expected assignable=%v, got %v", c.want, err)
			}
		}
		if err := thema.AssignableTo(sch, &p); !errors.Is(err, thema.ErrPointerDepth) {
			t.Fail("**", "double pointer: %v", err)
		}
	})
	// Deep nesting: one wrong leaf at every depth.
	for depth := 1; depth <= 5; depth++ {
		for bad := 0; bad <= depth; bad++ {
			for _, kind := range []string{"struct", "list", "map"} {
				depth, bad, kind := depth, bad, kind
				g.Case(fmt.Sprintf("deep %s %d bad=%d", kind, depth, bad), func(t *T) {
					ty, gt := Ty(tString), gtype[string]()
					if bad == depth {
						gt = gtype[bool]()
					}
					for d := depth - 1; d >= 0; d-- {
						switch kind {
						case "struct":
							ty = st(req("b", ty), req("c", tBool))
							cg := gtype[bool]()
							if d == bad {
								cg = gtype[string]()
							}
							gt = reflect.StructOf([]reflect.StructField{sfield("B", gt, "b"), sfield("C", cg, "c")})
						case "list":
							ty = List{st(req("b", ty))}
							gt = reflect.SliceOf(reflect.StructOf([]reflect.StructField{sfield("B", gt, "b")}))
							if d == bad {
								gt = reflect.SliceOf(gt)
							}
						case "map":
							ty = Map{st(req("b", ty))}
							gt = reflect.MapOf(gtype[string](), reflect.StructOf([]reflect.StructField{sfield("B", gt, "b")}))
							if d == bad {
								gt = reflect.SliceOf(gt)
							}
						}
					}
					full := st(req("a", ty))
					sch := one(t, full)
					s := reflect.StructOf([]reflect.StructField{sfield("A", gt, "a")})
					check(t, sch, full, s, reflect.New(s).Interface(), "leaf")
				})
			}
		}
	}
}

// holdsJSON tells whether the JSON text a has all that b has; it may have more fields, and null fields may be absent.
func holdsJSON(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	var holds func(x, y any) bool
	holds = func(x, y any) bool {
		switch y := y.(type) {
		case map[string]any:
			xm, ok := x.(map[string]any)
			if !ok {
				return false
			}
			for k, e := range y {
				xe, ok := xm[k]
				if !ok && e != nil || ok && !holds(xe, e) {
					return false
				}
			}
			return true
		case []any:
			xs, ok := x.([]any)
			if !ok || len(xs) != len(y) {
				return false
			}
			for i, e := range y {
				if !holds(xs[i], e) {
					return false
				}
			}
			return true
		}
		return reflect.DeepEqual(x, y)
	}
	return holds(x, y)
}
