package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"github.com/dave/dst"
	"github.com/dave/dst/dstutil"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/openapi"
)

func init() {
	register(&Prop{
		ID: "C20",
		Rule: "a case is one schema of the alphabet (1..2 fields, nested, references, joins, histories, groups, subpaths) and one generator configuration; the generated file is " +
			"parsed, type-checked and its types compared with the schema, field by field and enum member by enum member; non-trivial: the schema has a non-scalar or optional field",
		Gen: genC20,
	})
}

// goFile is a type-checked generated file.
type goFile struct {
	src  string
	file *ast.File
	pkg  *types.Package
}

var goImp types.Importer

func checkGo(src string) (*goFile, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if goImp == nil {
		goImp = importer.ForCompiler(token.NewFileSet(), "source", nil)
	}
	conf := types.Config{Importer: goImp}
	pkg, err := conf.Check("gen", fset, []*ast.File{f}, nil)
	if err != nil {
		return nil, err
	}
	return &goFile{src, f, pkg}, nil
}

// goKind is what the Go type of a schema type has to be.
type goKind struct {
	kind     string // string int int32 int64 float32 bool any slice map struct enum
	nullable bool
	elem     Ty
	fields   []Field
	values   []any
	named    string // definition name
}

func intText(x Range) string {
	switch x.Text {
	case "int32", "int64":
		return x.Text
	}
	return "int"
}

func goKindOf(t Ty) goKind {
	switch x := t.(type) {
	case Scalar:
		switch x.K {
		case "string", "int", "bool":
			return goKind{kind: x.K}
		case "float", "number":
			return goKind{kind: "float32"}
		}
		return goKind{kind: "any"}
	case Range:
		return goKind{kind: intText(x)}
	case Pattern:
		return goKind{kind: "string"}
	case Pred:
		switch {
		case strings.HasPrefix(x.Text, "int"):
			return goKind{kind: "int"}
		case strings.HasPrefix(x.Text, "number"):
			return goKind{kind: "float32"}
		}
		return goKind{kind: "string"}
	case Const:
		return goKind{kind: "enum", values: []any{x.V}}
	case Enum:
		return goKind{kind: "enum", values: x.V}
	case Def:
		return goKindOf(x.Base)
	case Ref:
		k := goKindOf(x.T)
		k.named = x.Name
		return k
	case List:
		return goKind{kind: "slice", elem: x.E}
	case Map:
		return goKind{kind: "map", elem: x.E}
	case Struct:
		return goKind{kind: "struct", fields: x.F}
	case Or:
		null := false
		var ks []goKind
		for _, e := range x.T {
			if e == Ty(tNull) {
				null = true
				continue
			}
			ks = append(ks, goKindOf(e))
		}
		k := ks[0]
		for _, o := range ks[1:] {
			if o.kind != k.kind || o.kind == "struct" || o.kind == "slice" || o.kind == "map" || o.kind == "enum" {
				k = goKind{kind: "any"}
			}
		}
		k.nullable = k.nullable || null
		return k
	}
	panic(fmt.Sprintf("goKindOf %T", t))
}

// match reports how the Go type differs from what t requires.
func (g *goFile) match(gt types.Type, k goKind, at string) string {
	bad := func() string {
		return fmt.Sprintf("%s is %s, want %s", at, gt, k.kind)
	}
	under := gt.Underlying()
	switch k.kind {
	case "any":
		if i, ok := under.(*types.Interface); !ok || i.NumMethods() != 0 {
			return bad()
		}
	case "slice":
		s, ok := under.(*types.Slice)
		if !ok {
			return bad()
		}
		return g.match(s.Elem(), goKindOf(k.elem), at+"[]")
	case "map":
		m, ok := under.(*types.Map)
		if !ok || m.Key().String() != "string" {
			return bad()
		}
		return g.match(m.Elem(), goKindOf(k.elem), at+"{}")
	case "struct":
		s, ok := under.(*types.Struct)
		if !ok {
			return bad()
		}
		return g.matchStruct(s, k.fields, at, false)
	case "enum":
		b, ok := under.(*types.Basic)
		want := map[string]string{"string": "string", "integer": "int", "boolean": "bool"}[jsonType(k.values[0])]
		if !ok || b.Name() != want {
			return bad()
		}
		n, ok := gt.(*types.Named)
		if !ok {
			// within lists and maps the elements have the plain type
			if strings.HasSuffix(at, "[]") || strings.HasSuffix(at, "{}") {
				return ""
			}
			return fmt.Sprintf("%s is %s, want a named enum type", at, gt)
		}
		return g.enumValues(n, k.values, at)
	default:
		b, ok := under.(*types.Basic)
		if !ok || b.Name() != k.kind {
			return bad()
		}
	}
	return ""
}

// enumValues compares the constants of an enum type.
func (g *goFile) enumValues(n *types.Named, values []any, at string) string {
	var want, got []string
	for _, v := range values {
		if b, ok := v.(bool); ok {
			want = append(want, fmt.Sprint(b))
		} else {
			want = append(want, lit(v))
		}
	}
	for _, name := range g.pkg.Scope().Names() {
		if c, ok := g.pkg.Scope().Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			if c.Val().Kind() == constant.String {
				got = append(got, lit(constant.StringVal(c.Val())))
			} else {
				got = append(got, c.Val().ExactString())
			}
			if !c.Exported() || !strings.HasPrefix(name, n.Obj().Name()) {
				return fmt.Sprintf("constant %s of enum %s", name, n)
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("%s: enum %s has constants %v, want %v", at, n, got, want)
	}
	return ""
}

func (g *goFile) matchStruct(s *types.Struct, fs []Field, at string, noptr bool) string {
	if s.NumFields() != len(fs) {
		return fmt.Sprintf("%s has %d fields, want %d", at, s.NumFields(), len(fs))
	}
	byName := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		n := strings.Split(tag, ",")[0]
		if _, dup := byName[n]; dup {
			return fmt.Sprintf("%s: two fields for %q", at, n)
		}
		byName[n] = i
		if !s.Field(i).Exported() || s.Field(i).Embedded() {
			return fmt.Sprintf("%s: field %s is not a plain exported field", at, s.Field(i).Name())
		}
	}
	for _, f := range fs {
		i, ok := byName[f.Name]
		if !ok {
			return fmt.Sprintf("%s: no field for %q", at, f.Name)
		}
		k := goKindOf(f.T)
		want := f.Name
		if f.Opt && !k.nullable {
			want += ",omitempty"
		}
		if tag := reflect.StructTag(s.Tag(i)).Get("json"); tag != want {
			return fmt.Sprintf("%s: tag of %q is %q, want %q", at, f.Name, tag, want)
		}
		gt := s.Field(i).Type()
		if r, ok := f.T.(Ref); ok {
			if u := goKindOf(r.T).kind; u == "slice" || u == "map" {
				// a definition may or may not be pointed to
				if p, ok := gt.(*types.Pointer); ok {
					gt = p.Elem()
				}
				if m := g.match(gt, k, at+"."+f.Name); m != "" {
					return m
				}
				continue
			}
		}
		wantPtr := (f.Opt || k.nullable) && k.kind != "slice" && k.kind != "map" && !g.noptr()
		if p, ok := gt.(*types.Pointer); ok != wantPtr {
			return fmt.Sprintf("%s: %q is %s; pointer wanted: %v", at, f.Name, gt, wantPtr)
		} else if ok {
			gt = p.Elem()
		}
		if m := g.match(gt, k, at+"."+f.Name); m != "" {
			return m
		}
	}
	return ""
}

func (g *goFile) noptr() bool { return strings.Contains(g.src, "\n// noptr\n") }

type goCfg struct {
	name string
	mk   func() *gocode.TypeConfigOpenAPI
	np   bool
}

var goCfgs = []goCfg{
	{"", func() *gocode.TypeConfigOpenAPI { return nil }, false},
	{"noptr", func() *gocode.TypeConfigOpenAPI { return &gocode.TypeConfigOpenAPI{NoOptionalPointers: true} }, true},
}

// goCheck generates and compares one type.
func goCheck(t *T, sch thema.Schema, ty Ty, cfg *gocode.TypeConfigOpenAPI, np bool, pkg, typ string) *goFile {
	b, err := gocode.GenerateTypesOpenAPI(sch, cfg)
	t.Step()
	if err != nil {
		t.Fatal("generate", "generation failed: %s\n%s", err, ty.cue())
	}
	src := string(b)
	if np {
		src += "\n// noptr\n"
	}
	g, err := checkGo(src)
	if err != nil {
		t.Fatal("compile", "generated Go does not type-check: %s\n%s\n%s", err, ty.cue(), src)
	}
	if g.file.Name.Name != pkg {
		t.Fail("package", "package %s, want %s", g.file.Name.Name, pkg)
	}
	if len(g.file.Imports) != 0 {
		t.Fail("imports", "generated types import something\n%s", src)
	}
	o, ok := g.pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		t.Fatal("type", "no type %s\n%s\n%s", typ, ty.cue(), src)
	}
	if m := g.match(o.Type(), goKindOf(ty), typ); m != "" {
		t.Fatal("shape", "%s\n%s\n%s", m, ty.cue(), src)
	}
	t.Checked("type", true)
	return g
}

func genC20(g *Gen) {
	for _, s := range docSchemas(g.Thorough()) {
		s := s
		st := s.T.(Struct)
		nm := true
		for _, f := range st.F {
			nm = nm && label(f.Name) == f.Name
		}
		if !nm {
			continue
		}
		for _, c := range goCfgs {
			c := c
			if c.np && len(st.F) > 1 && !g.Thorough() {
				continue
			}
			g.Case(c.name+" "+s.Name, func(t *T) {
				lin := mustBind(t, LinSpec{Imports: imports(s.T), Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.T.cue()}}})
				gf := goCheck(t, lin.First(), s.T, c.mk(), c.np, "lin", "Lin")
				t.State(gf.src)
				t.Sample("%s => %s", s.T.cue(), gf.src)
			})
		}
	}
	genGoShapes(g)
	genGoComments(g)
	genGoWraps(g)
	genGoReuse(g)
	names := []string{"a", "A", "aB", "AB", "a_b", "a-b", "ab", "type", "func", "string", "int", "any", "x1", "1x", "a b", "$a", "ünï", "id", "Id", "url", "a.b", "json", "Lin", "lin"}
	for _, n := range names {
		for _, m := range names {
			n, m := n, m
			if n == m {
				continue
			}
			for k, s := range []Struct{st(req(n, tBool), opt(m, List{tBool})), st(req(n, Enum{V: []any{"p", "q"}}), opt(m, Enum{V: []any{"r"}})), st(req(n, st(req(m, Enum{V: []any{"r"}}))))} {
				s := s
				g.Case(fmt.Sprintf("names %s %s %d", n, m, k), func(t *T) {
					lin := mustBind(t, LinSpec{Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.cue()}}})
					if k < 2 && goIdent(n) == goIdent(m) {
						if _, err := gocode.GenerateTypesOpenAPI(lin.First(), nil); err != nil {
							t.Step()
							t.Checked("names collide", true)
							return
						}
					}
					goCheck(t, lin.First(), s, nil, false, "lin", "Lin")
				})
			}
		}
	}
}

// genGoWraps: named types, whatever their names and kinds, under every nesting of
// lists, maps, structs and optional fields.
func genGoWraps(g *Gen) {
	wraps := []struct {
		n string
		f func(Ty) Ty
	}{
		{"[]", func(t Ty) Ty { return List{t} }},
		{"map", func(t Ty) Ty { return Map{t} }},
		{"{}", func(t Ty) Ty { return st(req("x", t)) }},
		{"{?}", func(t Ty) Ty { return st(opt("y_z", t)) }},
	}
	bodies := []namedTy{
		{"struct", st(req("x", tBool))},
		{"struct2", st(opt("p_q", tString), req("x", List{tInt}))},
		{"enum", Enum{V: []any{"p", "q"}}},
		{"union", Or{[]Ty{st(req("k", Const{"p"}), req("x", tInt)), st(req("k", Const{"q"}), req("y", tInt))}}},
		{"mixed", Or{[]Ty{tBool, tString}}},
		{"string", tString},
		{"list", List{tBool}},
		{"map", Map{tInt}},
	}
	max := 3
	if g.Thorough() {
		max = 4
	}
	for _, name := range []string{"Def", "De_f", "d_E_f"} {
		for _, b := range bodies {
			for n := 0; n <= max; n++ {
				forSeq(n, len(wraps), func(ws []int) {
					for _, o := range []bool{false, true} {
						name, b, o := name, b, o
						ty, key := Ty(Ref{name, b.T}), ""
						for i := len(ws) - 1; i >= 0; i-- {
							ty, key = wraps[ws[i]].f(ty), wraps[ws[i]].n+key
						}
						g.Case(fmt.Sprintf("wrap %s=%s %s opt=%v", name, b.Name, key, o), func(t *T) {
							full := st(Field{Name: "a", Opt: o, T: ty}, req("b", tBool))
							body := strings.TrimSuffix(full.cue(), "}") + "\n#" + name + ": " + b.T.cue() + "\n}"
							lin, err := bindText(t.RT(), oneLin("lin", nil, body))
							t.Step()
							if err != nil {
								t.Fatal("bind", "%s\n%s", err, body)
							}
							gf := goCheck(t, lin.First(), full, nil, false, "lin", "Lin")
							t.State(gf.src)
						})
					}
				})
			}
		}
	}
}

// genGoComments: doc comments in the schema change nothing but comments, and their
// text is kept.
func genGoComments(g *Gen) {
	texts := []string{"", "word", "A word", "a is a word", "A is a word", "TODO do it", "a TODO do it", "A: \"quoted\" `ticks` */", "two\n// lines", "\\ back % %s", "ü ünïcödé", "Deprecated: no"}
	cm := func(s string) string {
		if s == "" {
			return ""
		}
		return "\n// " + s + "\n"
	}
	ls := []namedTy{{"string", tString}, {"enum", Enum{V: []any{"a", "b"}}}, {"[]", List{tInt}}, {"{}", st(req("x", tInt))}}
	for _, l := range ls {
		for i, c1 := range texts {
			for j, c2 := range texts {
				for _, decl := range []bool{false, true} {
					l, c1, c2, decl := l, c1, c2, decl
					g.Case(fmt.Sprintf("comment %s %d %d %v", l.Name, i, j, decl), func(t *T) {
						body := "{" + cm(c1) + "a: " + l.T.cue() + "\n" + cm(c2) + "b?: #Def\n" + cm(c1) + "#Def: {" + cm(c2) + "x: bool\n}}"
						lin, err := bindText(t.RT(), oneLin("lin", nil, body))
						t.Step()
						if err != nil {
							t.Fatal("bind", "%s\n%s", err, body)
						}
						ty := st(req("a", l.T), opt("b", Ref{"Def", st(req("x", tBool))}))
						gf := goCheck(t, lin.First(), ty, &gocode.TypeConfigOpenAPI{UseGoDeclInComments: decl}, false, "lin", "Lin")
						flat := strings.Join(strings.Fields(strings.ReplaceAll(gf.src, "//", " ")), " ")
						for _, c := range []string{c1, c2} {
							// the first words may be folded into the name of what is documented
							w := strings.Fields(strings.ReplaceAll(c, "//", " "))
							if len(w) > 2 {
								w = w[2:]
							}
							if strings.Contains(c, "TODO") {
								w = nil
							}
							if !strings.Contains(flat, strings.Join(w, " ")) {
								t.Fail("comment", "the comment %q is lost\n%s", c, gf.src)
							}
						}
					})
				}
			}
		}
	}
}

// genGoReuse: one config used for a sequence of schemas gives what fresh ones give.
func genGoReuse(g *Gen) {
	def := st(req("x", tInt), opt("e", Enum{V: []any{"a", "b"}}))
	srcs := []namedText{
		{"plain", oneLin("lin", nil, st(req("a", tInt)).cue())},
		{"other", oneLin("other", nil, st(opt("b", tString)).cue())},
		{"enum", oneLin("lin", nil, st(req("a", Enum{V: []any{"a", "b"}}), opt("b", Or{T: []Ty{tInt, tString}})).cue())},
		{"ref", oneLin("lin", nil, body(st(req("a", Ref{"Def", def})), Ref{"Def", def}))},
		{"named as ref", oneLin("Def", nil, st(req("a", tInt)).cue())},
		{"bad name", oneLin("a-b", nil, st(req("a", tInt)).cue())},
		{"history", oneLin("lin", nil, st(req("a", tInt)).cue(), body(st(req("a", Ref{"Def", def})), Ref{"Def", def}))},
	}
	rename := func(c *dstutil.Cursor) bool {
		if f, ok := c.Node().(*dst.Field); ok && len(f.Names) == 1 {
			f.Names[0].Name += "X"
		}
		return true
	}
	cfgs := []struct {
		name string
		mk   func() *gocode.TypeConfigOpenAPI
	}{
		{"empty", func() *gocode.TypeConfigOpenAPI { return &gocode.TypeConfigOpenAPI{} }},
		{"noptr", func() *gocode.TypeConfigOpenAPI { return &gocode.TypeConfigOpenAPI{NoOptionalPointers: true} }},
		{"package", func() *gocode.TypeConfigOpenAPI { return &gocode.TypeConfigOpenAPI{PackageName: "pkg"} }},
		{"apply", func() *gocode.TypeConfigOpenAPI {
			return &gocode.TypeConfigOpenAPI{ApplyFuncs: []dstutil.ApplyFunc{rename}}
		}},
		{"group", func() *gocode.TypeConfigOpenAPI {
			return &gocode.TypeConfigOpenAPI{Config: &openapi.Config{Group: true}}
		}},
		{"root", func() *gocode.TypeConfigOpenAPI {
			return &gocode.TypeConfigOpenAPI{Config: &openapi.Config{RootName: "root"}}
		}},
		{"decl", func() *gocode.TypeConfigOpenAPI {
			return &gocode.TypeConfigOpenAPI{UseGoDeclInComments: true, IgnoreDiscoveredImports: true}
		}},
	}
	gen := func(t *T, lin thema.Lineage, cfg *gocode.TypeConfigOpenAPI) (out []string) {
		for _, s := range lin.All() {
			b, err := gocode.GenerateTypesOpenAPI(s, cfg)
			t.Step()
			if err != nil {
				out = append(out, "err")
				continue
			}
			out = append(out, string(b))
		}
		return out
	}
	depth := 2
	if g.Thorough() {
		depth = 3
	}
	for _, c := range cfgs {
		c := c
		forSeq(depth, len(srcs), func(seq []int) {
			key := "reuse " + c.name
			seq = append([]int{}, seq...)
			for _, i := range seq {
				key += " > " + srcs[i].name
			}
			g.Case(key, func(t *T) {
				rt := t.RT()
				shared := c.mk()
				for _, i := range seq {
					lin, err := bindText(rt, srcs[i].text)
					t.Step()
					if err != nil {
						t.Fatal("bind", "%s", err)
					}
					got, want := gen(t, lin, shared), gen(t, lin, c.mk())
					if fmt.Sprint(got) != fmt.Sprint(want) {
						t.Fatal("reuse", "a used config gives other types for %s\ngot  %v\nwant %v", srcs[i].name, got, want)
					}
					pkg := strings.ToLower(lin.Name())
					if c.name == "package" {
						pkg = "pkg"
					}
					for _, src := range want {
						if src == "err" && pkg == "a-b" {
							continue
						}
						gf, err := checkGo(src)
						if err != nil {
							t.Fatal("compile", "generated Go does not type-check: %s\n%s", err, src)
						}
						if gf.file.Name.Name != pkg {
							t.Fatal("package", "package %s, want %s", gf.file.Name.Name, pkg)
						}
						if c.name == "apply" {
							s, ok := gf.pkg.Scope().Lookup(strings.Title(lin.Name())).Type().Underlying().(*types.Struct)
							for i := 0; ok && i < s.NumFields(); i++ {
								if !strings.HasSuffix(s.Field(i).Name(), "X") {
									t.Fatal("apply", "ApplyFuncs had no effect\n%s", src)
								}
							}
						}
					}
					t.Checked("same", true)
					t.State(fmt.Sprint(i))
				}
			})
		})
	}
}

// goIdent folds what the generator folds in a Go name.
func goIdent(n string) string {
	return strings.ToLower(strings.NewReplacer("_", "", "-", "", ".", "", " ", "", "$", "").Replace(n))
}

type namedText struct{ name, text string }

// goTypeName is the Go name of a component.
func goTypeName(comp string) string {
	out := ""
	for _, w := range strings.Split(comp, "_") {
		out += strings.ToUpper(w[:1]) + w[1:]
	}
	return out
}

func genGoShapes(g *Gen) {
	for _, c := range docCases(g.Thorough(), false) {
		c := c
		if strings.HasPrefix(c.name, "refx") && (strings.Contains(c.name, "union") || strings.Contains(c.name, "disc") || strings.Contains(c.name, "{k:p}") || strings.Contains(c.name, "...}")) {
			continue // the expanded document is itself wrong, see C18
		}
		g.Case(c.name, func(t *T) {
			rt := t.RT()
			lin, err := bindText(rt, c.lin)
			t.Step()
			if err != nil {
				t.Fatal("bind", "%s\n%s", err, c.lin)
			}
			sch := thema.SchemaP(lin, sv(c.v))
			cfg := &gocode.TypeConfigOpenAPI{Config: c.cfg()}
			if len(c.comps) == 2 && goTypeName(c.comps[0]) == goTypeName(c.comps[1]) {
				// two types of one name: an error, unless they are the same
				if _, err := gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{Config: c.cfg()}); err != nil {
					t.Step()
					t.Checked("refused", true)
					return
				}
			}
			if c.bad {
				_, err := gocode.GenerateTypesOpenAPI(sch, cfg)
				t.Step()
				if err == nil {
					t.Fail("accepted", "generated types for a path that is not in the schema\n%s", c.lin)
				}
				t.Checked("refused", true)
				return
			}
			if k := goKindOf(c.ty); k.kind == "any" && (strings.HasPrefix(c.name, "subpath") || strings.HasPrefix(c.name, "group")) {
				// a union of several kinds is no type of its own
				b, err := gocode.GenerateTypesOpenAPI(sch, cfg)
				t.Step()
				if err != nil {
					t.Fatal("generate", "generation failed: %s\n%s", err, c.lin)
				}
				if _, err := checkGo(string(b)); err != nil {
					t.Fatal("compile", "generated Go does not type-check: %s\n%s\n%s", err, c.lin, b)
				}
				t.Checked("union", true)
				return
			}
			if !token.IsIdentifier(strings.ToLower(lin.Name())) {
				if _, err := gocode.GenerateTypesOpenAPI(sch, cfg); err == nil {
					t.Fail("package", "generated types in a package that cannot be named %s", lin.Name())
				}
				t.Step()
				t.Checked("no package name", true)
				cfg.PackageName = "pkg"
			}
			want := cfg.PackageName
			if want == "" {
				want = strings.ToLower(lin.Name())
			}
			goCheck(t, sch, c.ty, cfg, false, want, goTypeName(c.comp))
		})
	}
}
