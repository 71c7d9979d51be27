package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	castutil "cuelang.org/go/cue/ast/astutil"
	"cuelang.org/go/cue/cuecontext"
	"cuelang.org/go/cue/format"
	"cuelang.org/go/cue/parser"
	"github.com/grafana/thema"
	cuenc "github.com/grafana/thema/encoding/cue"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Prop{
		ID: "C22",
		Rule: "a case is a schema given to NewLineage in one of several ways, or a legacy lineage given to RewriteLegacyLineage; the resulting text is loaded and bound, and every schema and lens in it exercised " +
			"on all its probe data; non-trivial: the data has fields",
		Gen: genC22,
	})
}

// printFile is the file as it would be written. (Sanitize is what the command line
// tool does with it, too.)
func printFile(t *T, f *ast.File) string {
	if err := castutil.Sanitize(f); err != nil {
		t.Fatal("sanitize", "the generated file is malformed: %s", err)
	}
	b, err := format.Node(f, format.TabIndent(true), format.Simplify())
	if err == nil {
		b, err = format.Source(b, format.TabIndent(true), format.Simplify())
	}
	if err != nil {
		t.Fatal("format", "the generated file cannot be printed: %s", err)
	}
	return string(b)
}

// loadText loads a file of a package in an otherwise empty module.
func loadText(rt *thema.Runtime, text string, more ...string) (cue.Value, error) {
	pkg := ""
	if f, err := parser.ParseFile("f.cue", text, parser.PackageClauseOnly); err == nil {
		pkg = f.PackageName()
	}
	vfs := fstest.MapFS{"cue.mod/module.cue": {Data: []byte("module: \"example.com/mod\"\n")}, "f.cue": {Data: []byte(text)}}
	for i, m := range more {
		vfs[fmt.Sprintf("more%d.cue", i)] = &fstest.MapFile{Data: []byte(m)}
	}
	if pkg == "" {
		pkg = "_"
	}
	inst, err := load.InstanceWithThema(vfs, ".", load.Package(pkg))
	if err != nil {
		return cue.Value{}, err
	}
	v := rt.Context().BuildInstance(inst)
	return v, nil
}

func genC22(g *Gen) {
	genNewLineage(g)
	genRewrite(g)
}

type given struct {
	name string
	mk   func(ctx *cue.Context, text, imp string) cue.Value
}

var givens = []given{
	{"value", func(ctx *cue.Context, text, imp string) cue.Value { return ctx.CompileString(imp + text) }},
	{"field", func(ctx *cue.Context, text, imp string) cue.Value {
		return ctx.CompileString(imp + "p: q: " + text + "\np: r: int\n").LookupPath(cue.ParsePath("p.q"))
	}},
	{"definition", func(ctx *cue.Context, text, imp string) cue.Value {
		return ctx.CompileString(imp + "#P: " + text + "\nr: int\n").LookupPath(cue.ParsePath("#P"))
	}},
	{"reference", func(ctx *cue.Context, text, imp string) cue.Value {
		return ctx.CompileString(imp + "#P: " + text + "\nr: #P\n").LookupPath(cue.ParsePath("r"))
	}},
}

func genNewLineage(g *Gen) {
	probes2 := []any{absent, nil, true, "", "a", "zz", Num("1"), Num("4"), Num("1.5"), arr(), arr("a"), obj(), obj("x", Num("1"))}
	check := func(t *T, text, imp, name, pkg string, gv given, ty Struct, probes []any) {
		rt := t.RT()
		v := gv.mk(rt.Context(), text, imp)
		if v.Err() != nil {
			t.Fatal("harness", "%v", v.Err())
		}
		f, err := cuenc.NewLineage(v, name, pkg)
		t.Step()
		if err != nil {
			t.Fatal("generate", "NewLineage failed: %s\n%s", err, text)
		}
		if got := f.PackageName(); got != pkg {
			t.Fail("package", "package %q, want %q", got, pkg)
		}
		out := printFile(t, f)
		lv, err := loadText(rt, out)
		if err != nil {
			t.Fatal("load", "the generated lineage does not load: %s\n%s", err, out)
		}
		lin, err := thema.BindLineage(lv, rt)
		t.Step()
		if err != nil {
			t.Fatal("bind", "the generated lineage does not bind: %s\n%s", err, out)
		}
		if lin.Name() != name || len(lin.All()) != 1 || lin.First().Version() != thema.SV(0, 0) {
			t.Fatal("lineage", "want lineage %q with schema 0.0, have %q with %d\n%s", name, lin.Name(), len(lin.All()), out)
		}
		sch := lin.First()
		wrong := false
		dataFor(ty, probes, func(d any) {
			if wrong {
				return
			}
			full, want := accept(ty, d)
			js := lit(d)
			inst, err := sch.Validate(jsonData(rt, js))
			t.Step()
			t.State(js)
			cls := "reject"
			if want {
				cls = "accept"
			}
			t.Checked(cls, js != "{}")
			if want != (err == nil) {
				wrong = true
				t.Fail("member", "%s: want valid=%v, got %v\n%s\n%s", js, want, err, text, out)
				return
			}
			if err == nil {
				if got := valueOf(inst.Hydrate().Underlying()); got != lit(norm(full)) && got != lit(full) {
					wrong = true
					t.Fail("defaults", "%s is hydrated to %s, want %s\n%s\n%s", js, got, lit(full), text, out)
				}
			}
		})
		t.Sample("%s => %s", text, out)
	}
	for n, s := range c03Schemas(g.Thorough()) {
		s := s
		ty := s.T.(Struct)
		if len(ty.F) > 1 && n%3 != 0 && !g.Thorough() {
			continue
		}
		for i, gv := range givens {
			gv := gv
			if len(ty.F) > 1 && i > 0 && !g.Thorough() {
				continue
			}
			g.Case("new "+gv.name+" "+s.Name, func(t *T) {
				probes := probeValues
				if len(ty.F) > 1 {
					probes = probes2
				}
				check(t, s.T.cue(), "", "lin", "pkg", gv, ty, probes)
			})
		}
	}
	// further types, definitions and references
	for _, l := range docLeaves() {
		d := Ref{"Def", l.T}
		for i, s := range []Struct{st(req("a", l.T)), st(opt("a", l.T), req("b", tString)), st(req("a", d)), st(req("a", List{d}), opt("b", d)), st(opt("a", st(req("b", d))))} {
			for _, gv := range givens {
				l, i, s, gv := l, i, s, gv
				text := s.cue()
				if i > 1 {
					text = body(s, d)
				}
				g.Case(fmt.Sprintf("new %s leaf %d %s", gv.name, i, l.Name), func(t *T) {
					check(t, text, imports(s)+imports(l.T), "lin", "pkg", gv, deref(s).(Struct), probes2)
				})
			}
		}
	}
	// names and packages
	for _, name := range []string{"lin", "Lin", "a-b", "a_b", "foo.bar", "x1", "schema", "LIN"} {
		for _, pkg := range []string{"", "p", "thema", "lin"} {
			for _, gv := range givens {
				name, pkg, gv := name, pkg, gv
				g.Case(fmt.Sprintf("new %s name %s package %s", gv.name, name, pkg), func(t *T) {
					s := st(req("a", tInt), opt("b", Def{"q", tString}))
					check(t, s.cue(), "", name, pkg, gv, s, probes2)
				})
			}
		}
	}
	// ways to write a schema down: imports, comments, attributes, embeddings
	minr := st(req("a", Pred{"strings.MinRunes(2)", func(v any) bool { s, ok := v.(string); return ok && len(s) >= 2 }}), opt("b", tString))
	written := []struct {
		name, imp, text string
		ty              Struct
	}{
		{"import", "import \"strings\"\n", "{a: strings.MinRunes(2), b?: string}", minr},
		{"import alias", "import s \"strings\"\n", "{a: s.MinRunes(2), b?: string}", minr},
		{"imports", "import (\n\"strings\"\n\"time\"\n)\n", "{a: strings.MinRunes(2), b?: string, if false {c: time.Duration}}", minr},
		{"import in definition", "import \"strings\"\n", "{a: #D, b?: string, #D: strings.MinRunes(2)}", minr},
		{"comments", "", "{\n// doc of a\na: int // after a\n// doc of b\nb?: string | *\"q\" // }\n// end\n}", st(req("a", tInt), opt("b", Def{"q", tString}))},
		{"attributes", "", "{a: int @go(A) @cuetsy(kind=\"type\")\nb?: string @x(\"}\")\n@y(z)\n}", st(req("a", tInt), opt("b", tString))},
		{"embedding", "", "{#E, a: int, #E: {b?: string}}", st(req("a", tInt), opt("b", tString))},
		{"conjunction", "", "{a: int, b?: string} & {a: <=3}", st(req("a", Range{-1000, 3, "int & <=3"}), opt("b", tString))},
		{"let", "", "{let X = string, a: int, b?: X}", st(req("a", tInt), opt("b", tString))},
		{"hidden", "", "{_h: string, a: int, b?: _h}", st(req("a", tInt), opt("b", tString))},
		{"comprehension", "", "{for k in [\"a\"] {(k): int}, b?: string}", st(req("a", tInt), opt("b", tString))},
		{"quoted", "", "{\"a\": int, \"b\"?: string}", st(req("a", tInt), opt("b", tString))},
		{"sibling reference", "", "{a: #c, b?: string, #c: int, c: #c}", st(req("a", tInt), opt("b", tString), req("c", tInt))},
	}
	for _, w := range written {
		for _, gv := range givens {
			w, gv := w, gv
			g.Case(fmt.Sprintf("new %s written %s", gv.name, w.name), func(t *T) {
				check(t, w.text, w.imp, "lin", "pkg", gv, w.ty, probes2)
			})
		}
	}
	for i, bad := range []string{"_|_", "1 & 2", "{a: 1 & 2}", "{a: string, a: int}", "[}", "{a: b}"} {
		bad := bad
		g.Case(fmt.Sprintf("new bad %d", i), func(t *T) {
			f, err := cuenc.NewLineage(t.RT().Context().CompileString(bad), "lin", "p")
			t.Step()
			t.Checked("bad", true)
			if err != nil {
				return
			}
			lv, err := loadText(t.RT(), printFile(t, f))
			if err != nil {
				return
			}
			if _, err := thema.BindLineage(lv, t.RT()); err == nil {
				t.Fail("accepted", "a lineage was made of %s", bad)
			}
		})
	}
}

// deref replaces references by what they refer to.
func deref(t Ty) Ty {
	switch x := t.(type) {
	case Ref:
		return deref(x.T)
	case List:
		return List{deref(x.E)}
	case Map:
		return Map{deref(x.E)}
	case Struct:
		n := x
		n.F = nil
		for _, f := range x.F {
			f.T = deref(f.T)
			n.F = append(n.F, f)
		}
		return n
	}
	return t
}

// ---- legacy lineages

type relStyle struct {
	name     string
	fwd, rev func(i int) string // body of the lens between majors i and i+1
	// what the lenses make of f, n.x and l
	f func(f, x string, l []int) (string, string, []int)
}

func fmtL(l []int) string { return strings.ReplaceAll(fmt.Sprint(l), " ", ",") }

func relStyles() []relStyle {
	fn := func(i int) string { return fmt.Sprintf("f%d", i) }
	same := func(f, x string, l []int) (string, string, []int) { return f, x, l }
	both := func(body func(a, b string) string) (func(int) string, func(int) string) {
		return func(i int) string { return body(fn(i), fn(i+1)) }, func(i int) string { return body(fn(i+1), fn(i)) }
	}
	mk := func(name string, f func(f, x string, l []int) (string, string, []int), body func(a, b string) string) relStyle {
		fw, rv := both(body)
		return relStyle{name, fw, rv, f}
	}
	return []relStyle{
		mk("fields", same, func(a, b string) string { return b + ": from." + a + ", n: from.n, l: from.l" }),
		mk("chain", same, func(a, b string) string { return b + ": from." + a + ", n: x: from.n.x, l: from.l" }),
		mk("swap", func(f, x string, l []int) (string, string, []int) { return x, f, l }, func(a, b string) string {
			return b + ": from.n.x, n: {x: from." + a + "}, l: from.l"
		}),
		mk("interpolated", func(f, x string, l []int) (string, string, []int) { return f + "-" + x, x, l }, func(a, b string) string {
			return b + `: "\(from.` + a + `)-\(from.n.x)", n: from.n, l: from.l`
		}),
		mk("comprehension", func(f, x string, l []int) (string, string, []int) {
			var o []int
			for _, e := range l {
				o = append(o, e+1)
			}
			if x == "w" {
				f = "was w"
			}
			return f, x, o
		}, func(a, b string) string {
			return "n: from.n, l: [for e in from.l {e+1}], if from.n.x == \"w\" {" + b + ": \"was w\"}, if from.n.x != \"w\" {" + b + ": from." + a + "}"
		}),
		mk("index", func(f, x string, l []int) (string, string, []int) { return f, x, []int{l[1], l[0]} }, func(a, b string) string {
			return b + `: from["` + a + `"], n: x: from["n"]["x"], l: [for i, e in from.l {from.l[1-i]}]`
		}),
		mk("whole", same, func(a, b string) string {
			return b + ": from." + a + `, for k, v in from if k != "` + a + `" && k != "o1" && k != "o2" {(k): v}`
		}),
		mk("operators", func(f, x string, l []int) (string, string, []int) { return f + x + "!", x, l }, func(a, b string) string {
			return b + ": from." + a + ` + from.n.x + "!", n: {x: from.n.x & string}, l: [] + from.l`
		}),
		mk("nested names", same, func(a, b string) string {
			return b + ": from." + a + ", n: {x: from.n.x}, l: from.l, _from: from, _to: 1"
		}),
	}
}

type legForm struct {
	name, path string
	wrap       func(inner string) string
	more       []string
}

var legForms = []legForm{
	{"root", "", func(s string) string { return "package p\n\n" + s }, nil},
	{"root, two files", "", func(s string) string { return "package p\n\n" + s }, []string{"package p\n\n_more: 7\n"}},
	{"root thema, two files", "", func(s string) string {
		return "package p\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\n" + s
	}, []string{"package p\n\n_more: 7\n"}},
	{"root and thema, two files", "", func(s string) string { return "package p\n\n" + s }, []string{"package p\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\n"}},
	{"root thema", "", func(s string) string {
		return "package p\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\n" + s
	}, nil},
	{"no package", "", func(s string) string { return s }, nil},
	{"field", "lin", func(s string) string { return "package p\n\nother: 5\nlin: {\n" + s + "\n}\n" }, nil},
	{"field thema", "lin", func(s string) string {
		return "package p\n\nimport \"github.com/grafana/thema\"\n\nlin: thema.#Lineage & {\n" + s + "\n}\nother: 5\n"
	}, nil},
	{"field twice", "lin", func(s string) string {
		return "package p\n\nimport \"github.com/grafana/thema\"\n\nlin: thema.#Lineage\nlin: {\n" + s + "\n}\nother: 5\n"
	}, nil},
	{"deep", "a.b.lin", func(s string) string { return "package p\n\nother: 5\na: b: lin: {\n" + s + "\n}\na: c: 1\n" }, nil},
	{"two files", "lin", func(s string) string { return "package p\n\nother: 5\nlin: {\n" + s + "\n}\n" }, []string{"package p\n\n#More: 7\n"}},
	{"two lineages", "lin", func(s string) string { return "package p\n\nother: 5\nlin: {\n" + s + "\n}\nlin2: {\n" + s + "\n}\n" }, nil},
}

func genRewrite(g *Gen) {
	forms, styles := legForms, relStyles()
	for _, shape := range shapes(3, 3, 6) {
		for fi, form := range forms {
			for si, style := range styles {
				for lac := 0; lac < 3; lac++ {
					if !g.Thorough() && len(shape) > 1 && fi > 0 && si > 0 && (fi+si+lac)%6 != 0 {
						continue
					}
					if len(shape) == 1 && (si > 0 || lac > 0) {
						continue
					}
					shape, form, style, lac := shape, form, style, lac
					g.Case(fmt.Sprintf("legacy %s %s %s lac%d", shapeKey(shape), form.name, style.name, lac), func(t *T) { checkRewrite(t, shape, form, style, lac) })
				}
			}
		}
	}
	// names that mean something to lineages and lenses, as names of fields
	for _, nm := range []string{"seqs", "from", "to", "schemas", "lens", "rel", "input", "result", "lacunas", "version", "translated", "name", "lin"} {
		for fi, form := range forms {
			for si, style := range styles {
				for lac := 0; lac < 2; lac++ {
					if !g.Thorough() && (fi+si+lac)%4 != 0 {
						continue
					}
					if nm == "from" && strings.Contains("chain swap index operators nested names", style.name) {
						continue // n: {from: from.n.from} refers to itself
					}
					nm, form, style, lac := nm, form, style, lac
					g.Case(fmt.Sprintf("legacy field %s %s %s lac%d", nm, form.name, style.name, lac), func(t *T) {
						checkRewriteNamed(t, []int{1, 2}, form, style, lac, nm)
					})
				}
			}
		}
	}
	// what cannot be rewritten
	bads := []struct{ name, path, text string }{
		{"no seqs", "", "name: \"l\"\nschemas: []\n"},
		{"no such path", "zzz", "name: \"l\"\nseqs: [{schemas: [{a: int}]}]\n"},
		{"path without seqs", "lin", "lin: name: \"l\"\nseqs: [{schemas: [{a: int}]}]\n"},
		{"schema by reference", "", "name: \"l\"\n_S: {a: int}\nseqs: [{schemas: [_S]}]\n"},
		{"no list", "", "name: \"l\"\nseqs: {schemas: [{a: int}]}\n"},
		{"no schemas", "", "name: \"l\"\nseqs: [{}]\n"},
		{"lens by reference", "", "name: \"l\"\n_R: {b: 1}\nseqs: [{schemas: [{a: int}]}, {schemas: [{b: int}], lens: forward: {from: seqs[0].schemas[0], rel: _R}, lens: reverse: {from: seqs[1].schemas[0], rel: {a: from.b}}}]\n"},
		{"lacunas by reference", "", "name: \"l\"\n_L: []\nseqs: [{schemas: [{a: int}]}, {schemas: [{b: int}], lens: forward: {from: seqs[0].schemas[0], rel: {b: from.a}, lacunas: _L}, lens: reverse: {from: seqs[1].schemas[0], rel: {a: from.b}}}]\n"},
	}
	for _, b := range bads {
		b := b
		g.Case("legacy bad "+b.name, func(t *T) {
			v, err := loadText(t.RT(), "package p\n\n"+b.text)
			if err != nil {
				t.Fatal("harness", "%s", err)
			}
			f, err := cuenc.RewriteLegacyLineage(v, cue.ParsePath(b.path))
			t.Step()
			t.Checked("refused", true)
			if err == nil {
				t.Fail("accepted", "rewritten to\n%s", printFile(t, f))
			}
		})
	}
	g.Case("legacy bad not an instance", func(t *T) {
		_, err := cuenc.RewriteLegacyLineage(t.RT().Context().CompileString("name: \"l\"\nseqs: [{schemas: [{a: int}]}]\n").LookupPath(cue.ParsePath("seqs")), cue.Path{})
		t.Step()
		t.Checked("refused", true)
		if err == nil {
			t.Fail("accepted", "a value that is no instance was rewritten")
		}
	})
}

// legacySchemaBody is schema j of major i: fi, a nested field, a list, and j optional fields.
func legacySchemaBody(i, j int) Struct {
	s := st(req(fmt.Sprintf("f%d", i), tString), req("n", st(req("x", tString))), req("l", List{tInt}))
	for k := 1; k <= j; k++ {
		s.F = append(s.F, opt(fmt.Sprintf("o%d", k), tInt))
	}
	return s
}

func checkRewrite(t *T, shape []int, form legForm, style relStyle, lac int) {
	checkRewriteNamed(t, shape, form, style, lac, "x")
}

// checkRewriteNamed is checkRewrite with the nested field x called nm.
func checkRewriteNamed(t *T, shape []int, form legForm, style relStyle, lac int, nm string) {
	rename := func(s string) string {
		if nm == "x" {
			return s
		}
		return strings.NewReplacer("{x: ", "{"+nm+": ", "n: x: ", "n: "+nm+": ", "from.n.x", "from.n."+nm, `["x"]`, fmt.Sprintf("[%q]", nm), `{"x":`, fmt.Sprintf("{%q:", nm), `"n.x"`, `"n.`+nm+`"`).Replace(s)
	}
	// the legacy text
	var sb strings.Builder
	sb.WriteString("name: \"leg\"\nseqs: [\n")
	pre := "seqs"
	for i, n := range shape {
		sb.WriteString("{\nschemas: [\n")
		for j := 0; j < n; j++ {
			fmt.Fprintf(&sb, "\t%s,\n", legacySchemaBody(i, j).cue())
		}
		sb.WriteString("]\n")
		if i > 0 {
			ls := func(dir string) string {
				switch lac {
				case 1:
					return fmt.Sprintf("\n\tlacunas: [{message: \"%s \\(from.n.x)\", type: {name: \"Placeholder\", id: 1}, sourceFields: [{path: \"n\", value: from.n}], targetFields: [{path: \"l\", value: to.l}]}]", dir)
				case 2:
					return fmt.Sprintf("\n\tlacunas: [if from.n.x == \"w\" {message: \"%s\", type: {name: \"Placeholder\", id: 1}, sourceFields: [{path: \"n.x\", value: from.n.x}], targetFields: []}]", dir)
				}
				return "\n\tlacunas: []"
			}
			fmt.Fprintf(&sb, "lens: forward: {\n\tto: %[1]s[%[2]d].schemas[0]\n\tfrom: %[1]s[%[3]d].schemas[%[4]d]\n\ttranslated: to & rel\n\trel: {%[5]s}%[6]s\n}\n", pre, i, i-1, shape[i-1]-1, style.fwd(i-1), ls("forward"))
			fmt.Fprintf(&sb, "lens: reverse: {\n\tto: %[1]s[%[3]d].schemas[%[4]d]\n\tfrom: %[1]s[%[2]d].schemas[0]\n\ttranslated: to & rel\n\trel: {%[5]s}%[6]s\n}\n", pre, i, i-1, shape[i-1]-1, style.rev(i-1), ls("reverse"))
		}
		sb.WriteString("},\n")
	}
	sb.WriteString("]\n")
	text := form.wrap(rename(sb.String()))
	ctx := cuecontext.New()
	v, err := loadText(thema.NewRuntime(ctx), text, form.more...)
	if err != nil {
		t.Fatal("harness", "legacy lineage does not load: %s\n%s", err, text)
	}
	f, err := cuenc.RewriteLegacyLineage(v, cue.ParsePath(form.path))
	t.Step()
	if nm == "input" && err != nil {
		t.Checked("refused", true) // from would have to become input where input is something else
		return
	}
	if err != nil {
		t.Fatal("rewrite", "%s\n%s", err, text)
	}
	vs := versionsOf(shape)
	pf, err := parser.ParseFile("f.cue", printFile(t, f), parser.ParseComments)
	if err != nil {
		t.Fatal("parse", "the rewritten file does not parse: %s", err)
	}
	stubs := fillStubs(pf)
	minors := len(vs) - len(shape)
	if stubs != minors {
		t.Fail("stubs", "%d lenses are left to be written, want one per minor version: %d\n%s", stubs, minors, printFile(t, f))
	}
	out := printFile(t, pf)
	rt := t.RT()
	lv, err := loadText(rt, out, form.more...)
	if err != nil {
		t.Fatal("load", "the rewritten lineage does not load: %s\n%s", err, out)
	}
	if form.path != "" {
		if n, err := lv.LookupPath(cue.ParsePath("other")).Int64(); err != nil || n != 5 {
			t.Fail("other", "another field of the file is changed: %v\n%s", err, out)
		}
	}
	if form.name == "two lineages" && !lv.LookupPath(cue.ParsePath("lin2.seqs")).Exists() {
		t.Fail("other", "the other lineage is changed\n%s", out)
	}
	lin, err := thema.BindLineage(lv.LookupPath(cue.ParsePath(form.path)), rt)
	t.Step()
	if err != nil {
		t.Fatal("bind", "the rewritten lineage does not bind: %s\n%s", err, out)
	}
	all := lin.All()
	if lin.Name() != "leg" || len(all) != len(vs) {
		t.Fatal("schemas", "want %d schemas, have %d\n%s", len(vs), len(all), out)
	}
	t.State(out)
	t.Sample("%s => %s", text, out)
	datum := func(v [2]int, f, x string, l []int, o bool) string {
		s := fmt.Sprintf(`{"f%d":%q,"l":%s,"n":{"x":%q}`, v[0], f, fmtL(l), x)
		for k := 1; o && k <= v[1]; k++ {
			s += fmt.Sprintf(`,"o%d":%d`, k, k)
		}
		return rename(s + "}")
	}
	for i, sch := range all {
		if sch.Version() != sv(vs[i]) {
			t.Fatal("version", "schema %d is %s, want %v\n%s", i, sch.Version(), vs[i], out)
		}
		// exactly its data
		for _, v := range vs {
			for _, o := range []bool{false, true} {
				js := datum(v, "v", "w", []int{1, 2}, o)
				_, err := sch.Validate(jsonData(rt, js))
				t.Step()
				want := v[0] == vs[i][0] && (!o || v[1] <= vs[i][1])
				t.Checked("member", true)
				if want != (err == nil) {
					t.Fatal("member", "%s for %s: want valid=%v, got %v\n%s", js, sch.Version(), want, err, out)
				}
			}
		}
	}
	// the lenses between majors
	for i := range all {
		for _, x := range []string{"w", "z"} {
			inst, err := all[i].Validate(jsonData(rt, datum(vs[i], "v", x, []int{1, 2}, true)))
			if err != nil {
				t.Fatal("member", "%s", err)
			}
			for _, j := range []int{i - 1, i + 1} {
				if j < 0 || j >= len(all) || vs[i][0] == vs[j][0] {
					continue
				}
				got, lacs, err := inst.Translate(sv(vs[j]))
				t.Step()
				if err != nil {
					t.Fatal("translate", "%v -> %v: %s\n%s", vs[i], vs[j], err, out)
				}
				rf, rx, rl := style.f("v", x, []int{1, 2})
				if w := datum(vs[j], rf, rx, rl, false); valueOf(got.Underlying()) != canonText(w) {
					t.Fatal("lens", "%v -> %v of %s: want %s, got %s\n%s", vs[i], vs[j], valueOf(inst.Underlying()), w, valueOf(got.Underlying()), out)
				}
				dir := "forward"
				if j < i {
					dir = "reverse"
				}
				want := ""
				switch {
				case lac == 1:
					want = fmt.Sprintf("%s %s|n=%s|l=%s", dir, x, canonText(rename(fmt.Sprintf(`{"x":%q}`, x))), fmtL(rl))
				case lac == 2 && x == "w":
					want = rename(fmt.Sprintf("%s|n.x=%q", dir, x))
				}
				var ls []string
				if lacs != nil {
					for _, l := range lacs.AsList() {
						s := l.Message
						for _, f := range append(append([]thema.FieldRef{}, l.SourceFields...), l.TargetFields...) {
							s += fmt.Sprintf("|%s=%s", f.Path, fieldText(f.Value))
						}
						ls = append(ls, s)
					}
				}
				t.Checked("lens", true)
				if strings.Join(ls, ";") != want {
					t.Fatal("lacunas", "%v -> %v: want lacunas %q, got %q\n%s", vs[i], vs[j], want, ls, out)
				}
			}
		}
	}
}

func canonText(js string) string {
	v, _ := canon([]byte(js))
	return lit(v)
}

func fieldText(v any) string {
	switch x := v.(type) {
	case cue.Value:
		return valueOf(x)
	default:
		b, _ := json.Marshal(x)
		return canonText(string(b))
	}
}

// fillStubs writes the lenses that are left to be written (they are bottom), and
// counts them.
func fillStubs(f *ast.File) int {
	n := 0
	ast.Walk(f, func(nd ast.Node) bool {
		fl, ok := nd.(*ast.Field)
		if !ok {
			return true
		}
		if name, _, err := ast.LabelName(fl.Label); err != nil || name != "result" {
			return true
		}
		s, ok := fl.Value.(*ast.StructLit)
		if !ok || len(s.Elts) != 1 {
			return true
		}
		e, ok := s.Elts[0].(*ast.EmbedDecl)
		if !ok {
			return true
		}
		if _, ok := e.Expr.(*ast.BottomLit); ok {
			n++
			fl.Value, _ = parser.ParseExpr("stub", "{for k, v in input if k != \"o1\" && k != \"o2\" {(k): v}}")
		}
		return false
	}, nil)
	return n
}
