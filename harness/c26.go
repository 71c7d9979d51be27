package main

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/build"
	"github.com/grafana/thema"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Prop{
		ID: "C26",
		Rule: "a case is a file tree (a subset of candidate files of several packages and directories), a module name, a directory and a package option; the loaded instance's content is compared with the " +
			"files the tree has for that package and directory, and lineages loaded from every such place are bound and exercised; non-trivial: more than one file, a subdirectory or a package option",
		Gen: genC26,
	})
}

type cand struct{ path, pkg, mark string }

func text(c cand) string {
	if c.pkg == "" {
		return c.mark + ": true\n"
	}
	return "package " + c.pkg + "\n\n" + c.mark + ": true\n"
}

// loadModel: the marks of the instance of package pkg in dir (a package goes on in
// subdirectories), and whether dir itself has files of it.
func loadModel(files []cand, dir, pkg string) (marks []string, here bool) {
	for _, c := range files {
		d := path.Dir(c.path)
		if c.pkg != pkg {
			continue
		}
		if d == dir || d == "." || strings.HasPrefix(dir, d+"/") {
			marks = append(marks, c.mark)
			here = here || d == dir
		}
	}
	sort.Strings(marks)
	return marks, here
}

func marksOf(v cue.Value) ([]string, error) {
	it, err := v.Fields()
	if err != nil {
		return nil, err
	}
	var out []string
	for it.Next() {
		out = append(out, it.Label())
	}
	sort.Strings(out)
	return out, nil
}

func genC26(g *Gen) {
	mods := []string{"mod", "example.com/mod", "example.com/x/mod", "github.com/grafana/thema"}
	dirs := []struct{ arg, dir string }{{"", "."}, {".", "."}, {"sub", "sub"}, {"sub/deep", "sub/deep"}, {"none", "none"}}
	if g.Thorough() {
		dirs = append(dirs, struct{ arg, dir string }{"./sub", "sub"}, struct{ arg, dir string }{"sub/", "sub"}, struct{ arg, dir string }{"sub/../sub", "sub"})
	}
	for _, m := range mods {
		root := path.Base(m)
		cands := []cand{
			{"a.cue", root, "rootA"}, {"b.cue", root, "rootB"}, {"o.cue", "other", "rootO"}, {"sub/a.cue", "sub", "subA"}, {"sub/o.cue", "other", "subO"},
			{"sub/r.cue", root, "subR"}, {"sub/deep/a.cue", "deep", "deepA"}, {"sub/deep/s.cue", "sub", "deepS"},
		}
		for _, d := range dirs {
			for _, p := range []string{"", root, "other", "sub", "zzz"} {
				m, d, p := m, d, p
				if m == "github.com/grafana/thema" && (d.dir == "." || p == root) {
					continue // thema's own files are there as well
				}
				for set := 0; set < 1<<len(cands); set++ {
					if !g.Thorough() && m != "example.com/mod" && set%5 != 0 {
						continue
					}
					set := set
					g.Case(fmt.Sprintf("tree %s dir=%s pkg=%s %08b", m, d.arg, p, set), func(t *T) {
						vfs := fstest.MapFS{"cue.mod/module.cue": {Data: []byte("module: \"" + m + "\"\n")}}
						var files []cand
						for i, c := range cands {
							if set&(1<<i) != 0 {
								vfs[c.path] = &fstest.MapFile{Data: []byte(text(c))}
								files = append(files, c)
							}
						}
						pkg := p
						var opts []load.Option
						if p != "" {
							opts = append(opts, load.Package(p))
						} else if pkg = path.Base(d.dir); d.dir == "." {
							pkg = root
						}
						want, here := loadModel(files, d.dir, pkg)
						inst, err := load.InstanceWithThema(vfs, d.arg, opts...)
						t.Step()
						if err != nil {
							if here {
								t.Fatal("error", "loading package %s of %q from %v: error %v, want files %v", pkg, d.arg, files, err, want)
							}
							t.Checked("nothing there", len(files) > 0)
							return
						}
						got, err := marksOf(t.RT().Context().BuildInstance(inst))
						t.Step()
						if err != nil && len(want) == 0 {
							got, err = nil, nil
						}
						if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
							t.Fatal("content", "package %s of %q from %v has %v (%v), want %v", pkg, d.arg, files, got, err, want)
						}
						if here && inst.PkgName != pkg {
							t.Fail("pkgname", "package %s, want %s", inst.PkgName, pkg)
						}
						t.State(fmt.Sprint(want))
						t.Checked("loaded", true)
						t.Sample("%v in %s: %v", files, d.arg, want)
					})
				}
			}
		}
	}
	genLoadBad(g)
	genLoadLineages(g)
	genAsMod(g)
}

// genLoadBad: trees that are no module are refused as such.
func genLoadBad(g *Gen) {
	file := func(s string) *fstest.MapFile { return &fstest.MapFile{Data: []byte(s)} }
	good := "package mod\n\na: true\n"
	type bad struct {
		name   string
		vfs    fstest.MapFS
		refuse bool
	}
	for _, b := range []bad{
		{"no cue.mod", fstest.MapFS{"a.cue": file(good)}, true},
		{"no module.cue", fstest.MapFS{"a.cue": file(good), "cue.mod/pkg/x.com/y/y.cue": file("package y\n")}, true},
		{"empty module.cue", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("")}, true},
		{"empty module name", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: \"\"")}, true},
		{"module name not a string", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: 1")}, true},
		{"module name not concrete", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: string")}, true},
		{"module.cue malformed", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: {")}, true},
		{"thema vendored", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: \"mod\""), "cue.mod/pkg/github.com/grafana/thema/x.cue": file("package thema\n")}, true},
		{"thema vendored below", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: \"mod\""), "cue.mod/pkg/github.com/grafana/thema/sub/x.cue": file("package sub\n")}, true},
		{"thema in usr", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: \"mod\""), "cue.mod/usr/github.com/grafana/other/x.cue": file("package other\n")}, false},
		{"gen", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: \"mod\""), "cue.mod/gen/github.com/grafana/thema/x.cue": file("package other\n")}, false},
		{"other vendored", fstest.MapFS{"a.cue": file(good), "cue.mod/module.cue": file("module: \"mod\""), "cue.mod/pkg/github.com/grafana/other/x.cue": file("package other\n")}, false},
	} {
		b := b
		for _, dir := range []string{"", ".", "sub"} {
			dir := dir
			g.Case("module "+b.name+" "+dir, func(t *T) {
				b.vfs["sub/a.cue"] = file("package sub\n\na: true\n")
				inst, err := load.InstanceWithThema(b.vfs, dir)
				t.Step()
				if b.refuse {
					var e *load.ErrFSNotACueModule
					if err == nil || !errors.As(err, &e) {
						t.Fail("refused", "got error %v, want ErrFSNotACueModule", err)
					} else if errors.Unwrap(e) == nil {
						t.Fail("cause", "the error has no cause")
					}
					t.Checked("refused", true)
					return
				}
				if err != nil {
					t.Fatal("error", "%s", err)
				}
				if got, err := marksOf(t.RT().Context().BuildInstance(inst)); err != nil || fmt.Sprint(got) != "[a]" {
					t.Fail("content", "has %v (%v)", got, err)
				}
				t.Checked("accepted", true)
			})
		}
	}
	// errors within the files
	for _, c := range []struct{ name, body string }{
		{"syntax", "package mod\n\na: {\n"}, {"import", "package mod\n\nimport \"example.com/nothing\"\na: nothing.x\n"}, {"unused import", "package mod\n\nimport \"strings\"\na: 1\n"},
	} {
		c := c
		g.Case("file "+c.name, func(t *T) {
			inst, err := load.InstanceWithThema(fstest.MapFS{"cue.mod/module.cue": file("module: \"mod\""), "a.cue": file(c.body)}, ".")
			t.Step()
			if err == nil {
				err = t.RT().Context().BuildInstance(inst).Err()
			}
			if err == nil {
				t.Fail("accepted", "no error for %s", c.body)
			}
			t.Checked("refused", true)
		})
	}
}

const loadLin = `import "github.com/grafana/thema"

%s
%s: thema.#Lineage & {
	name: "loaded"
	schemas: [
		{version: [0, 0], schema: {a: %s}},
		{version: [0, 1], schema: {a: %s, b?: string}},
	]
	lenses: [{from: [0, 1], to: [0, 0], input: _, result: {a: input.a}}]
}
`

// genLoadLineages: lineages wherever they are declared can be loaded, built and bound.
func genLoadLineages(g *Gen) {
	file := func(s string) *fstest.MapFile { return &fstest.MapFile{Data: []byte(s)} }
	for _, m := range []string{"mod", "example.com/mod", "github.com/grafana/thema"} {
		for _, dir := range []string{".", "sub", "sub/deep"} {
			for _, how := range []string{"whole", "two files", "sibling package", "vendored package", "nested", "usr package", "gen package"} {
				for _, named := range []bool{false, true} {
					m, dir, how, named := m, dir, how, named
					pkg := path.Base(dir)
					if dir == "." {
						pkg = path.Base(m)
					}
					if m == "github.com/grafana/thema" && dir == "." {
						continue
					}
					if how == "sibling package" && m == "mod" {
						continue // CUE takes mod/defs for a builtin package
					}
					var opts []load.Option
					if named {
						pkg = "custom"
						opts = append(opts, load.Package("custom"))
					}
					g.Case(fmt.Sprintf("lineage %s %s %s %v", m, dir, how, named), func(t *T) {
						vfs := fstest.MapFS{"cue.mod/module.cue": file("module: \"" + m + "\"\n"), "readme.md": file("x"), "unrelated/u.cue": file("package unrelated\n\nimport \"nowhere.example/x\"\n")}
						at, decl, ty, imp := "lin", "", "int32", ""
						switch how {
						case "two files":
							decl, ty = "", "_#A"
							vfs[path.Join(dir, "two.cue")] = file("package " + pkg + "\n\n_#A: int32\n")
						case "sibling package":
							imp, ty = "import \""+m+"/defs\"\n", "defs.#A"
							vfs["defs/d.cue"] = file("package defs\n\n#A: int32\n")
						case "vendored package":
							imp, ty = "import \"dep.example/x/defs\"\n", "defs.#A"
							vfs["cue.mod/pkg/dep.example/x/defs/d.cue"] = file("package defs\n\n#A: int32\n")
						case "usr package":
							imp, ty = "import \"dep.example/x/defs\"\n", "defs.#A"
							vfs["cue.mod/usr/dep.example/x/defs/d.cue"] = file("package defs\n\n#A: int32\n")
						case "gen package":
							imp, ty = "import \"dep.example/x/defs\"\n", "defs.#A"
							vfs["cue.mod/gen/dep.example/x/defs/d.cue"] = file("package defs\n\n#A: int32\n")
						case "nested":
							at = "x: y: lin"
						}
						vfs[path.Join(dir, "lin.cue")] = file("package " + pkg + "\n\n" + imp + fmt.Sprintf(loadLin, decl, at, ty, ty))
						inst, err := load.InstanceWithThema(vfs, dir, opts...)
						t.Step()
						if err != nil {
							t.Fatal("load", "%s", err)
						}
						lookLin(t, inst, strings.ReplaceAll(at, ": ", "."))
						t.State(fmt.Sprint(dir, how))
					})
				}
			}
		}
	}
}

func lookLin(t *T, inst *build.Instance, at string) {
	rt := t.RT()
	lin, err := thema.BindLineage(rt.Context().BuildInstance(inst).LookupPath(cue.ParsePath(at)), rt)
	t.Step()
	if err != nil {
		t.Fatal("bind", "%s", err)
	}
	if lin.Name() != "loaded" || len(lin.All()) != 2 {
		t.Fatal("lineage", "lineage %s has %d schemas", lin.Name(), len(lin.All()))
	}
	for data, want := range map[string]bool{"{a: 1}": true, "{a: \"s\"}": false, "{a: 1, b: \"x\"}": true, "{a: 4294967296}": false, "{}": false} {
		_, err := lin.Latest().Validate(rt.Context().CompileString(data))
		t.Step()
		if (err == nil) != want {
			t.Fail("validate", "%s: %v, want valid %v", data, err, want)
		}
		t.Checked("used", true)
	}
}

// genAsMod: AsModFS adds a module file exactly when there is none, and nothing else.
func genAsMod(g *Gen) {
	file := func(s string) *fstest.MapFile { return &fstest.MapFile{Data: []byte(s)} }
	cands := []string{"cue.mod/module.cue", "a.cue", "sub/b.cue", "cue.mod/pkg/x.com/y/y.cue", "cue.mod/readme"}
	for set := 0; set < 1<<len(cands); set++ {
		for _, name := range []string{"mod", "example.com/mod", "github.com/x/y-z"} {
			set, name := set, name
			g.Case(fmt.Sprintf("asmod %s %05b", name, set), func(t *T) {
				vfs, want := fstest.MapFS{}, map[string]string{"cue.mod/module.cue": "module: \"" + name + "\""}
				for i, c := range cands {
					if set&(1<<i) != 0 {
						body := "package p" + fmt.Sprint(i)
						if i == 0 {
							body = "module: \"own.example/mod\""
						}
						vfs[c], want[c] = file(body), body
					}
				}
				out := load.AsModFS(vfs, name)
				t.Step()
				got := map[string]string{}
				err := fs.WalkDir(out, ".", func(p string, d fs.DirEntry, err error) error {
					if err != nil || d.IsDir() {
						return err
					}
					b, err := fs.ReadFile(out, p)
					got[p] = string(b)
					return err
				})
				if err != nil {
					t.Fatal("walk", "%s", err)
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fail("content", "got %v\nwant %v", got, want)
				}
				t.State(fmt.Sprint(want))
				t.Checked("same", len(vfs) > 0)
				if _, has := vfs["a.cue"]; !has {
					return
				}
				// and it can be loaded
				wantMod := name
				if set&1 != 0 {
					wantMod = "own.example/mod"
				}
				inst, err := load.InstanceWithThema(out, ".", load.Package("p1"))
				t.Step()
				if err != nil {
					t.Fatal("load", "%s", err)
				}
				if inst.Module != wantMod {
					t.Fail("module", "module %s, want %s", inst.Module, wantMod)
				}
				t.Checked("loads", true)
			})
		}
	}
}
