package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"cuelang.org/go/cue/parser"
	"github.com/grafana/thema"
)

// docOf is the JSON Schema or OpenAPI form of a type; refs to definitions are
// collected.
func docOf(t Ty, prefix string, defs map[string]any) map[string]any {
	switch x := t.(type) {
	case Scalar:
		m := map[string]string{"string": "string", "int": "integer", "number": "number", "bool": "boolean"}
		if m[x.K] == "" {
			panic(x.K)
		}
		return map[string]any{"type": m[x.K]}
	case Range:
		return map[string]any{"type": "integer", "minimum": x.Lo, "maximum": x.Hi}
	case Enum:
		return map[string]any{"type": "string", "enum": x.V}
	case Def:
		m := docOf(x.Base, prefix, defs)
		m["default"] = x.D
		return m
	case List:
		return map[string]any{"type": "array", "items": docOf(x.E, prefix, defs)}
	case Ref:
		if defs[x.Name] == nil {
			defs[x.Name] = docOf(x.T, prefix, defs)
		}
		return map[string]any{"$ref": prefix + x.Name}
	case Struct:
		m := map[string]any{"type": "object"}
		ps := map[string]any{}
		var rq []string
		for _, f := range x.F {
			ps[f.Name] = docOf(f.T, prefix, defs)
			if !f.Opt {
				rq = append(rq, f.Name)
			}
		}
		m["properties"] = ps
		if rq != nil {
			m["required"] = rq
		}
		if !x.Open {
			m["additionalProperties"] = false
		}
		return m
	}
	panic(fmt.Sprintf("%T", t))
}

func toJSON(v any) string {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	return string(b)
}

// toYAML prints a document as YAML (flow style inside of lists).
func toYAML(v map[string]any, in string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(v) {
		switch x := v[k].(type) {
		case map[string]any:
			if len(x) == 0 {
				fmt.Fprintf(&sb, "%s%q: {}\n", in, k)
			} else {
				fmt.Fprintf(&sb, "%s%q:\n%s", in, k, toYAML(x, in+"  "))
			}
		default:
			b, _ := json.Marshal(x)
			fmt.Fprintf(&sb, "%s%q: %s\n", in, k, b)
		}
	}
	return sb.String()
}

func initTypes() []namedTy {
	leaves := []namedTy{
		{"string", tString}, {"int", tInt}, {"number", Scalar{"number"}}, {"bool", Scalar{"bool"}},
		{"range", Range{1, 3, "int"}}, {"enum", Enum{[]any{"a", "b"}}}, {"list", List{tString}}, {"list of list", List{List{tInt}}},
		{"default", Def{"q", tString}}, {"default int", Def{Num("4"), tInt}},
		{"struct", st(req("x", tInt))}, {"optional struct", st(opt("x", tInt))}, {"empty", st()},
		{"list of struct", List{st(req("x", tInt))}},
	}
	op := func(s Struct) Struct { s.Open = true; return s }
	var out []namedTy
	for _, l := range leaves {
		r := Ref{"R", l.T}
		out = append(out,
			namedTy{"req " + l.Name, st(req("a", l.T))},
			namedTy{"opt " + l.Name, st(opt("a", l.T))},
			namedTy{"two " + l.Name, st(req("a", l.T), opt("b", l.T))},
			namedTy{"nested " + l.Name, st(req("a", st(opt("b", l.T))))},
			namedTy{"open " + l.Name, op(st(req("a", l.T)))},
			namedTy{"open nested " + l.Name, st(req("a", op(st(opt("b", l.T)))))},
			namedTy{"ref " + l.Name, st(req("a", r))},
			namedTy{"refs " + l.Name, st(opt("a", r), req("b", List{r}))},
			namedTy{"open ref " + l.Name, op(st(opt("a", Ref{"R", op(st(opt("b", l.T)))})))},
		)
	}
	return out
}

func genCliInit(g *Gen) {
	probes := []any{absent, nil, true, "a", "zz", Num("1"), Num("4"), Num("1.5"), arr(), arr("a"), arr(arr(Num("1"))), obj(), obj("x", Num("1")), obj("x", "a"), obj("y", Num("1")), obj("b", "a"), obj("b", Num("1")), obj("b", obj("x", Num("1")), "z", Num("1"))}
	// bind checks the lineage printed and gives it back
	bind := func(t *T, line string, res cliRes, name, pkg string) thema.Lineage {
		f, err := parser.ParseFile("out.cue", res.out)
		if err != nil {
			t.Fatal("output", "thema %s: output is not CUE: %s\n%s", line, err, res.out)
		}
		if f.PackageName() != pkg {
			t.Fail("package", "thema %s: package %q, want %q\n%s", line, f.PackageName(), pkg, res.out)
		}
		lv, err := loadText(t.RT(), res.out)
		if err != nil {
			t.Fatal("load", "thema %s: output does not load: %s\n%s", line, err, res.out)
		}
		lin, err := thema.BindLineage(lv, t.RT())
		t.Step()
		if err != nil {
			t.Fatal("bind", "thema %s: output does not bind: %s\n%s", line, err, res.out)
		}
		if lin.Name() != name || len(lin.All()) != 1 || lin.First().Version() != thema.SV(0, 0) {
			t.Fatal("lineage", "thema %s: want lineage %q with schema 0.0, got\n%s", line, name, res.out)
		}
		return lin
	}
	member := func(t *T, line string, lin thema.Lineage, ty Struct, text string) {
		dataFor(ty, probes, func(d any) {
			_, want := accept(ty, d)
			_, err := lin.First().Validate(jsonData(t.RT(), lit(d)))
			t.Step()
			t.Checked("member", true)
			if want != (err == nil) {
				t.Fatal("member", "thema %s: %s: want valid=%v, got %v\n%s", line, lit(d), want, err, text)
			}
		})
	}
	validPkg := func(s string) bool { return s == "lin" || s == "Lin" || s == "x1" || s == "pk" || s == "a_b" }
	for _, kind := range []string{"empty", "jsonschema", "openapi"} {
		for _, name := range []string{"", "lin", "Lin", "x1", "a-b", "a.b", "a_b"} {
			for _, pkg := range []string{"", "pk", "a-b", "1x"} {
				for _, nopkg := range []bool{false, true} {
					kind, name, pkg, nopkg := kind, name, pkg, nopkg
					g.Case(fmt.Sprintf("init %s -n %q --package-name %q --no-package=%v", kind, name, pkg, nopkg), func(t *T) {
						ty := st(req("a", tString))
						args := []string{"lineage", "init", kind}
						in, f := "", feedNull
						switch kind {
						case "empty":
							ty = st()
						case "jsonschema":
							in, f = toJSON(docOf(ty, "", nil)), feedPipe
						case "openapi":
							in, f = toJSON(oapiDoc("A", ty)), feedPipe
							args = append(args, "--src-subpath", "#A")
						}
						if name != "" {
							args = append(args, "-n", name)
						}
						if pkg != "" {
							args = append(args, "--package-name", pkg)
						}
						if nopkg {
							args = append(args, "--no-package")
						}
						dir := scratch(nil)
						defer os.RemoveAll(dir)
						res := cli(t, dir, f, in, args...)
						ok := name != "" && !(nopkg && pkg != "")
						wantPkg := ""
						if !nopkg {
							wantPkg = pkg
							if pkg == "" {
								wantPkg = name
							}
							ok = ok && validPkg(wantPkg)
						}
						line := strings.Join(args, " ")
						t.Checked("init", ok)
						t.State(line)
						if (res.code == 0) != ok || res.code > 1 {
							t.Fatal("status", "thema %s exits with %d, want success=%v\n%s%s", line, res.code, ok, res.out, res.err)
						}
						if !ok {
							if res.out != "" || res.err == "" {
								t.Fail("failure", "thema %s fails with output %q and message %q", line, res.out, res.err)
							}
							return
						}
						member(t, line, bind(t, line, res, name, wantPkg), ty, res.out)
					})
				}
			}
		}
	}
	ways := []cliWay{{"pipe", "", feedPipe}, {"redirect", "", feedFile}, {"json", "in.json", feedNull}, {"yaml", "in.yaml", feedNull}, {"yaml pipe", "", feedPipe}}
	for i, nt := range initTypes() {
		for wi, way := range ways {
			for _, kind := range []string{"jsonschema", "openapi"} {
				if kind == "jsonschema" && wi > 2 {
					continue // takes JSON only
				}
				if !g.Thorough() && i > 8 && (i+wi)%3 != 0 {
					continue
				}
				nt, way, kind := nt, way, kind
				g.Case(fmt.Sprintf("init %s %s %s", kind, way.name, nt.Name), func(t *T) {
					ty := nt.T.(Struct)
					args := []string{"lineage", "init", kind, "-n", "lin"}
					var doc map[string]any
					if kind == "openapi" {
						doc = oapiDoc("A", ty)
						args = append(args, "--src-subpath", "#A")
					} else {
						defs := map[string]any{}
						doc = docOf(ty, "#/definitions/", defs)
						doc["$schema"] = "http://json-schema.org/draft-07/schema#"
						if len(defs) > 0 {
							doc["definitions"] = defs
						}
					}
					text := toJSON(doc)
					if strings.HasPrefix(way.name, "yaml") {
						var m map[string]any
						if err := json.Unmarshal([]byte(text), &m); err != nil {
							panic(err)
						}
						text = toYAML(m, "")
					}
					files := map[string]string{}
					if way.file != "" {
						files[way.file] = text
						args = append(args, way.file)
					}
					dir := scratch(files)
					defer os.RemoveAll(dir)
					res := cli(t, dir, way.f, text, args...)
					line := strings.Join(args, " ")
					t.Checked("init "+kind, true)
					t.State(text)
					if res.code != 0 {
						t.Fatal("status", "thema %s exits with %d\n%s%s\n%s", line, res.code, res.out, res.err, text)
					}
					member(t, line, bind(t, line, res, "lin", "lin"), deref(ty).(Struct), text+"\n"+res.out)
				})
			}
		}
	}
	bads := []struct{ name, file, text string }{
		{"malformed", "in.json", "{"}, {"malformed", "", "{"}, {"scalar", "in.json", "5"}, {"scalar", "", "5"}, {"empty", "in.json", ""}, {"empty", "", ""},
		{"malformed yaml", "in.yaml", "a: [\n"}, {"missing file", "", ""}, {"text file", "in.txt", "{}"}, {"bad type", "in.json", `{"type":"foo"}`}, {"list", "in.json", "[]"},
	}
	for _, kind := range []string{"jsonschema", "openapi"} {
		for i, b := range bads {
			kind, b := kind, b
			g.Case(fmt.Sprintf("init %s bad %d %s", kind, i, b.name), func(t *T) {
				args := []string{"lineage", "init", kind, "-n", "lin"}
				files := map[string]string{}
				if b.file != "" {
					files[b.file] = b.text
					args = append(args, b.file)
				}
				if b.name == "missing file" {
					args = append(args, "nix.json")
				}
				dir := scratch(files)
				defer os.RemoveAll(dir)
				res := cli(t, dir, feedPipe, b.text, args...)
				t.Checked("bad", true)
				line := strings.Join(args, " ")
				t.State(line + b.text)
				if res.code == 0 {
					// whatever was made of it must be a lineage
					bind(t, line, res, "lin", "lin")
				} else if res.code != 1 || res.out != "" || res.err == "" {
					t.Fail("failure", "thema %s fails with %d, output %q and message %q", line, res.code, res.out, res.err)
				}
			})
		}
	}
}

func oapiDoc(name string, ty Ty) map[string]any {
	defs := map[string]any{}
	defs[name] = docOf(ty, "#/components/schemas/", defs)
	return map[string]any{
		"openapi": "3.0.0", "info": map[string]any{"title": "t", "version": "1.0"}, "paths": map[string]any{},
		"components": map[string]any{"schemas": defs},
	}
}

// ---- lineage fix

func genCliFix(g *Gen) {
	leg := `name: "leg"
seqs: [
	{
		schemas: [
			{f0: string},
		]
	},
	{
		schemas: [
			{f1: string},
		]
		lens: forward: {
			to: seqs[1].schemas[0]
			from: seqs[0].schemas[0]
			translated: to & rel
			rel: {f1: from.f0}
			lacunas: []
		}
		lens: reverse: {
			to: seqs[0].schemas[0]
			from: seqs[1].schemas[0]
			translated: to & rel
			rel: {f0: from.f1}
			lacunas: []
		}
	},
]
`
	mod := "module: \"example.com/m\"\n"
	root := "package p\n\n" + leg
	imp := "package p\n\n" + themaImport + "thema.#Lineage\n" + leg
	deep := "package p\n\nother: 5\nx: y: {\n" + indent(leg) + "}\n"
	type pl struct {
		name  string
		files map[string]string
		cwd   string
		args  []string
		file  string // rewritten
		path  string
	}
	places := []pl{
		{"file", map[string]string{"lin.cue": root}, "", []string{"-l", "lin.cue"}, "lin.cue", ""},
		{"file imports", map[string]string{"lin.cue": imp}, "", []string{"-l", "lin.cue"}, "lin.cue", ""},
		{"no package", map[string]string{"lin.cue": leg}, "", []string{"-l", "lin.cue"}, "lin.cue", ""},
		{"dir", map[string]string{"lin.cue": root}, "", []string{"-l", "."}, "lin.cue", ""},
		{"dir imports", map[string]string{"lin.cue": imp}, "", []string{"-l", "."}, "lin.cue", ""},
		{"subdir", map[string]string{"s/lin.cue": root}, "", []string{"-l", "s"}, "s/lin.cue", ""},
		{"subdir file", map[string]string{"s/lin.cue": root}, "", []string{"-l", "s/lin.cue"}, "s/lin.cue", ""},
		{"absolute", map[string]string{"s/lin.cue": root}, "", []string{"-l", "ABS/s/lin.cue"}, "s/lin.cue", ""},
		{"absolute dir", map[string]string{"s/lin.cue": root}, "", []string{"-l", "ABS/s"}, "s/lin.cue", ""},
		{"other dir", map[string]string{"s/lin.cue": root, "w/x.txt": ""}, "w", []string{"-l", "../s/lin.cue"}, "s/lin.cue", ""},
		{"two files", map[string]string{"a.cue": "package p\n\n_other: 5\n", "lin.cue": root}, "", []string{"-l", "."}, "lin.cue", ""},
		{"module file", map[string]string{"cue.mod/module.cue": mod, "lin.cue": root}, "", []string{"-l", "lin.cue"}, "lin.cue", ""},
		{"module dir", map[string]string{"cue.mod/module.cue": mod, "lin.cue": imp}, "", []string{"-l", "."}, "lin.cue", ""},
		{"module subdir", map[string]string{"cue.mod/module.cue": mod, "a/b/lin.cue": root}, "", []string{"-l", "a/b"}, "a/b/lin.cue", ""},
		{"module subdir file", map[string]string{"cue.mod/module.cue": mod, "a/b/lin.cue": root}, "", []string{"-l", "a/b/lin.cue"}, "a/b/lin.cue", ""},
		{"module two files", map[string]string{"cue.mod/module.cue": mod, "a.cue": "package p\n\n_other: 5\n", "lin.cue": root}, "", []string{"-l", "."}, "lin.cue", ""},
		{"path", map[string]string{"lin.cue": deep}, "", []string{"-l", "lin.cue", "-p", "x.y"}, "lin.cue", "x.y"},
		{"path dir", map[string]string{"lin.cue": deep}, "", []string{"-l", ".", "-p", "x.y"}, "lin.cue", "x.y"},
		{"path module", map[string]string{"cue.mod/module.cue": mod, "s/lin.cue": deep}, "", []string{"-l", "s", "-p", "x.y"}, "s/lin.cue", "x.y"},
		{"bad: wrong path", map[string]string{"lin.cue": deep}, "", []string{"-l", "lin.cue", "-p", "x.z"}, "", ""},
		{"bad: no path", map[string]string{"lin.cue": deep}, "", []string{"-l", "lin.cue"}, "", ""},
		{"bad: new lineage", map[string]string{"lin.cue": "package p\n\n" + cliBody}, "", []string{"-l", "lin.cue"}, "", ""},
		{"bad: missing", map[string]string{"lin.cue": root}, "", []string{"-l", "nix.cue"}, "", ""},
		{"bad: syntax", map[string]string{"lin.cue": root + "}"}, "", []string{"-l", "lin.cue"}, "", ""},
		{"bad: empty dir", map[string]string{"l/x.txt": ""}, "", []string{"-l", "l"}, "", ""},
		{"bad: malformed path", map[string]string{"lin.cue": deep}, "", []string{"-l", "lin.cue", "-p", "x..y"}, "", ""},
	}
	for _, p := range places {
		p := p
		g.Case("fix "+p.name, func(t *T) {
			dir := scratch(p.files)
			defer os.RemoveAll(dir)
			args := []string{"lineage", "fix"}
			var la []string
			for _, a := range p.args {
				la = append(la, strings.ReplaceAll(a, "ABS", dir))
			}
			cwd := filepath.Join(dir, p.cwd)
			res := cli(t, cwd, feedNull, "", append(args, la...)...)
			line := strings.Join(append(args, la...), " ")
			ok := p.file != ""
			t.Checked("fix", ok)
			t.State(p.name)
			if (res.code == 0) != ok || res.code > 1 {
				t.Fatal("status", "thema %s exits with %d, want success=%v\n%s%s", line, res.code, ok, res.out, res.err)
			}
			if res.out != "" || ok != (res.err == "") {
				t.Fail("output", "thema %s prints %q and %q", line, res.out, res.err)
			}
			// all other files are as they were
			filepath.Walk(dir, func(q string, fi os.FileInfo, err error) error {
				if fi.IsDir() {
					return nil
				}
				rel, _ := filepath.Rel(dir, q)
				if rel == p.file {
					return nil
				}
				b, _ := os.ReadFile(q)
				if was, given := p.files[filepath.ToSlash(rel)]; !given || was != string(b) {
					t.Fail("others", "thema %s changes %s", line, rel)
				}
				return nil
			})
			if !ok {
				return
			}
			// the rewritten lineage works
			for _, c := range []struct{ to, in, want string }{
				{"1.0", `{"f0":"v"}`, `{"from":"0.0","lacunas":[],"result":{"f1":"v"},"to":"1.0"}`},
				{"0.0", `{"f1":"v"}`, `{"from":"1.0","lacunas":[],"result":{"f0":"v"},"to":"0.0"}`},
				{"1.0", `{"f1":"v"}`, `{"from":"1.0","lacunas":[],"result":{"f1":"v"},"to":"1.0"}`},
			} {
				r := cli(t, cwd, feedPipe, c.in, append([]string{"data", "translate", "--to", c.to}, la...)...)
				b, _ := os.ReadFile(filepath.Join(dir, p.file))
				if r.code != 0 || canonText(r.out) != canonText(c.want) {
					t.Fatal("result", "after thema %s, translating %s to %s gives %d %s%s\n%s", line, c.in, c.to, r.code, r.out, r.err, b)
				}
			}
		})
	}
}

func sortedKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
