package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"cuelang.org/go/cue"
	"github.com/dave/dst"
	"github.com/dave/dst/dstutil"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
)

func init() {
	register(&Prop{
		ID: "C25",
		Rule: "a case is a batch of generated bindings, one package per combination of factory name options, assignee and target version, lineage path, package name and embedding options; the batch is compiled " +
			"against the working tree and every factory is called: its lineage, its typed schema and its treatment of options are compared with the source lineage; non-trivial: any option is set",
		Gen: genC25,
	})
}

var bindVersions = [][2]int{{0, 0}, {0, 1}, {1, 0}}

func bindLinText(name string) string {
	return fmt.Sprintf(`name: %q
schemas: [
	{version: [0, 0], schema: {a: int32}},
	{version: [0, 1], schema: {a: int32, b?: string}},
	{version: [1, 0], schema: {a: int32, c: bool | *true}},
]
lenses: [
	{from: [0, 1], to: [0, 0], input: _, result: {a: input.a}},
	{from: [1, 0], to: [0, 1], input: _, result: {a: input.a}},
	{from: [0, 1], to: [1, 0], input: _, result: {a: input.a, c: false}},
]
`, name)
}

var bindTypes = map[[2]int]string{
	{0, 0}: "struct {\n\tA int32 `json:\"a\"`\n}",
	{0, 1}: "struct {\n\tA int32 `json:\"a\"`\n\tB *string `json:\"b,omitempty\"`\n}",
	{1, 0}: "struct {\n\tA int32 `json:\"a\"`\n\tC bool `json:\"c\"`\n}",
}

// bindCombo is one generated binding.
type bindCombo struct {
	suffix, title string // suffix: "", "name", "title"
	private       bool
	assignee      string // "", "T", "*T"
	target        [2]int
	nested        bool
	mode          string // full, noloader, nofs, noembed, subdir
	pkg           string
	apply         bool
	cli           *bindCLI
}

// bindCLI is a layout for a binding generated by the command.
type bindCLI struct {
	cuemod string // none, root, sub: where the CUE module is
	cuepkg string // the CUE package
	arg    string // file, dir: what the lineage is loaded from
	extra  string // none, shared (a second file of the package), other (a file of another package)
	abs    bool   // whether the path is absolute, and the command run elsewhere
}

func (c bindCombo) String() string {
	if c.cli != nil {
		return fmt.Sprintf("command %+v suffix=%s private=%v assignee=%s@%s nested=%v pkg=%s", *c.cli, c.suffix, c.private, c.assignee, vstr(c.target), c.nested, c.pkg)
	}
	return fmt.Sprintf("suffix=%s private=%v assignee=%s@%s nested=%v mode=%s pkg=%s apply=%v", c.suffix, c.private, c.assignee, vstr(c.target), c.nested, c.mode, c.pkg, c.apply)
}

// names are the factory's and, for typed ones, the base factory's names.
func (c bindCombo) name(lin string) string {
	n := "Lineage"
	switch c.suffix {
	case "name":
		n += strings.ToUpper(lin[:1]) + lin[1:]
	case "title":
		n += "Custom"
	}
	if c.private {
		n = "do" + n
	}
	return n
}

const bindUser = `package %s

import (
	"encoding/json"
	"fmt"

	"github.com/grafana/thema"
	%s
)

type T %s

%s

// Run calls the generated factory.
func Run() (out map[string]any) {
	out = map[string]any{}
	defer func() {
		if r := recover(); r != nil {
			out["panic"] = fmt.Sprint(r)
		}
	}()
	rt := thema.NewRuntime(zzctx())
	var f func(*thema.Runtime, ...thema.BindOption) (thema.%s, error) = %s
	lin, err := f(rt)
	if err != nil {
		out["error"] = err.Error()
		return out
	}
	out["name"] = lin.Name()
	var vs []string
	for _, s := range lin.All() {
		vs = append(vs, s.Version().String())
	}
	out["versions"] = fmt.Sprint(vs)
	out["sameRuntime"] = lin.Runtime() == rt
	inst, err := lin.Latest().Validate(rt.Context().CompileString("{a: 7, c: false}"))
	if err != nil {
		out["validate"] = err.Error()
	} else {
		ti, _, err := inst.Translate(thema.SV(0, 0))
		if err != nil {
			out["translate"] = err.Error()
		} else {
			b, _ := json.Marshal(ti.Underlying())
			out["translate"] = string(b)
		}
	}
	// options are passed on: this one is for a lens the lineage does not have
	_, err = f(rt, thema.ImperativeLenses(thema.ImperativeLens{From: thema.SV(7, 0), To: thema.SV(6, 0), Mapper: func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) { return nil, nil }}))
	out["optionError"] = err != nil
	%s
	return out
}
`

const bindTyped = `ts := lin.TypedSchema()
	out["target"] = ts.Version().String()
	v := ts.NewT()
	out["type"] = fmt.Sprintf("%T", v)
	b, _ := json.Marshal(v)
	out["new"] = string(b)`

func (c bindCombo) write(dir string, lin thema.Lineage) error {
	path := "lin"
	if c.nested {
		path = "x.y.lin"
	}
	cfg := &gocode.BindingConfig{PrivateFactory: c.private, FactoryNameSuffix: c.suffix != "", PackageName: c.pkg}
	if c.suffix == "title" {
		cfg.TitleName = "Custom"
	}
	if c.assignee != "" {
		cfg.Assignee = dst.NewIdent(c.assignee)
		cfg.TargetSchemaVersion = sv(c.target)
	}
	cfg.CuePath = cue.ParsePath(path)
	cfg.EmbedPath, cfg.LoadDir, cfg.CueModName = "lin.cue", ".", "example.com/cuemod"
	cuedir := dir
	cuepkg := "cuemod"
	user := ""
	imps := "\"cuelang.org/go/cue\"\n\t\"cuelang.org/go/cue/cuecontext\"\n"
	ctx := "func zzctx() *cue.Context { return cuecontext.New() }\n"
	fsfn := fmt.Sprintf("func getThemaFSFor%s() fs.FS { return load.AsModFS(%%s, \"example.com/cuemod\") }\n", lin.Name())
	switch c.mode {
	case "noloader":
		cfg.LoadDir = ""
		imps += "\t\"cuelang.org/go/cue/build\"\n\t\"github.com/grafana/thema/load\"\n"
		user = fmt.Sprintf("func loadInstanceFor%s() (*build.Instance, error) { return load.InstanceWithThema(getThemaFSFor%s(), \".\") }\n", lin.Name(), lin.Name())
	case "nofs":
		cfg.CueModName = ""
		imps += "\t\"io/fs\"\n\t\"github.com/grafana/thema/load\"\n"
		user = fmt.Sprintf(fsfn, "themaFSFor"+lin.Name())
	case "noembed":
		cfg.EmbedPath = ""
		imps += "\t\"io/fs\"\n\t\"embed\"\n\t\"github.com/grafana/thema/load\"\n"
		user = "//go:embed lin.cue\nvar own embed.FS\n\n" + fmt.Sprintf(fsfn, "own")
	case "subdir":
		cfg.EmbedPath, cfg.LoadDir = "sub", "sub"
		cuedir, cuepkg = filepath.Join(dir, "sub"), "sub"
	}
	if c.apply {
		cfg.ApplyFuncs = []dstutil.ApplyFunc{func(cu *dstutil.Cursor) bool {
			if f, ok := cu.Node().(*dst.FuncDecl); ok && f.Name.Name == c.name(lin.Name()) {
				f.Name.Name = "Renamed"
			}
			if _, sel := cu.Parent().(*dst.SelectorExpr); sel {
				return true
			}
			if id, ok := cu.Node().(*dst.Ident); ok && id.Name == c.name(lin.Name()) {
				id.Name = "Renamed"
			}
			return true
		}}
	}
	if err := os.MkdirAll(cuedir, 0o755); err != nil {
		return err
	}
	text := "package " + cuepkg + "\n\nimport \"github.com/grafana/thema\"\n\n" + strings.ReplaceAll(path, ".", ": ") + ": thema.#Lineage & {\n" + bindLinText(lin.Name()) + "}\n"
	var b []byte
	if c.cli == nil {
		var err error
		if b, err = gocode.GenerateLineageBinding(lin, cfg); err != nil {
			return err
		}
	} else {
		cuepkg = c.cli.cuepkg
		if cuepkg == "" {
			cuepkg = filepath.Base(dir)
		}
		text = "package " + cuepkg + "\n" + strings.SplitN(text, "\n", 2)[1]
		files := map[string]string{}
		switch c.cli.extra {
		case "shared":
			text = strings.ReplaceAll(text, "{a: int32", "{a: #shared")
			files["shared.cue"] = "package " + cuepkg + "\n\n#shared: int32\n"
		case "other":
			files["aother.cue"] = "package aother\n\nlin: 3\nx: y: lin: 3\n"
			files["zother.cue"] = "package zother\n\nlin: 3\nx: y: lin: 3\n"
		}
		if c.cli.cuemod == "sub" {
			files["cue.mod/module.cue"] = "module: \"example.com/sub\"\n"
		}
		files["lin.cue"] = text
		for n, f := range files {
			if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(dir, n), []byte(f), 0o644); err != nil {
				return err
			}
		}
		arg, wd := ".", dir
		if c.cli.arg == "file" {
			arg = "lin.cue"
		}
		if c.cli.abs {
			arg, wd = filepath.Join(dir, arg), "/"
		}
		args := []string{"lineage", "gen", "gobindings", "-l", arg, "-p", path}
		if c.suffix != "" {
			args = append(args, "--suffix")
		}
		if c.private {
			args = append(args, "--private")
		}
		if c.pkg != "" {
			args = append(args, "--pkgname", c.pkg)
		}
		if c.assignee != "" {
			args = append(args, "--bind-type", c.assignee)
			if c.target != bindVersions[len(bindVersions)-1] { // the default
				args = append(args, "-v", vstr(c.target))
			}
		}
		cmd := exec.Command(themaBin(), args...)
		cmd.Dir = wd
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("thema %s: %w: %s", strings.Join(args, " "), err, out)
		}
		gen := filepath.Join(dir, strings.ToLower(lin.Name())+"_bindings_gen.go")
		if b, err = os.ReadFile(gen); err != nil {
			return err
		}
		if err := os.Remove(gen); err != nil { // written again as gen.go
			return err
		}
	}
	pkg := c.pkg
	if pkg == "" {
		pkg = strings.ToLower(lin.Name())
	}
	ret, typed := "Lineage", ""
	if c.assignee != "" {
		ret, typed = "ConvergentLineage["+c.assignee+"]", bindTyped
	}
	fn := c.name(lin.Name())
	if c.apply {
		fn = "Renamed"
	}
	for n, text := range map[string]string{
		filepath.Join(dir, "gen.go"):     string(b),
		filepath.Join(dir, "user.go"):    fmt.Sprintf(bindUser, pkg, imps, bindTypes[c.target], ctx+user, ret, fn, typed),
		filepath.Join(cuedir, "lin.cue"): text,
	} {
		if err := os.WriteFile(n, []byte(text), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// want is what Run has to report.
func (c bindCombo) want(lin string) map[string]any {
	w := map[string]any{"name": lin, "versions": "[0.0 0.1 1.0]", "sameRuntime": true, "translate": `{"a":7}`, "optionError": true}
	if c.assignee != "" {
		pkg := c.pkg
		if pkg == "" {
			pkg = strings.ToLower(lin)
		}
		w["target"], w["type"] = vstr(c.target), strings.Replace(c.assignee, "T", pkg+".T", 1)
		w["new"] = `{"a":0}`
		if c.target == [2]int{1, 0} {
			w["new"] = `{"a":0,"c":true}`
		}
	}
	return w
}

func genC25(g *Gen) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	batch := func(key, name string, combos []bindCombo) {
		g.Case(key, func(t *T) {
			lin, err := bindText(t.RT(), bindLinText(name))
			t.Step()
			if err != nil {
				t.Fatal("bind", "%s", err)
			}
			dir, err := os.MkdirTemp("", "bind")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
			if err != nil {
				panic(err)
			}
			sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
			if err != nil {
				panic(err)
			}
			modText := strings.Replace(string(mod), "module github.com/grafana/thema", "module zzbind", 1) + "\nrequire github.com/grafana/thema v0.0.0\n\nreplace github.com/grafana/thema => " + repo + "\n"
			mainText := "package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n"
			calls := ""
			if c := combos[0].cli; c != nil { // all in a batch are alike in this
				files := map[string]string{"go.mod": modText}
				if c.cuemod == "root" {
					files["cue.mod/module.cue"] = "module: \"example.com/cuemod\"\n"
				}
				for n, f := range files {
					if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755); err != nil {
						panic(err)
					}
					if err := os.WriteFile(filepath.Join(dir, n), []byte(f), 0o644); err != nil {
						panic(err)
					}
				}
			}
			for i, c := range combos {
				p := fmt.Sprintf("p%03d", i)
				if err := c.write(filepath.Join(dir, p), lin); err != nil {
					t.Fatal("generate", "%s: %s", c, err)
				}
				t.Step()
				mainText += fmt.Sprintf("\t%s \"zzbind/%s\"\n", p, p)
				calls += fmt.Sprintf("\tout = append(out, %s.Run())\n", p)
			}
			mainText += ")\n\nfunc main() {\n\tvar out []map[string]any\n" + calls + "\tjson.NewEncoder(os.Stdout).Encode(out)\n}\n"
			for n, b := range map[string][]byte{"go.mod": []byte(modText), "go.sum": sum, "main.go": []byte(mainText)} {
				if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
					panic(err)
				}
			}
			build := exec.Command("go", "build", "-o", "run", ".")
			build.Dir = dir
			if b, err := build.CombinedOutput(); err != nil {
				bad := ""
				for i, c := range combos {
					if strings.Contains(string(b), fmt.Sprintf("p%03d", i)) {
						src, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("p%03d", i), "gen.go"))
						bad = fmt.Sprintf("%s\n%s", c, src)
						break
					}
				}
				if bad == "" {
					panic(fmt.Sprintf("harness: cannot build: %s\n%s", err, b))
				}
				t.Fatal("compile", "generated binding does not compile: %s\n%s", b, bad)
			}
			run := exec.Command(filepath.Join(dir, "run"))
			var stdout, stderr bytes.Buffer
			run.Stdout, run.Stderr = &stdout, &stderr
			if err := run.Run(); err != nil {
				t.Fatal("run", "%s\n%s", err, stderr.String())
			}
			var got []map[string]any
			if err := json.Unmarshal(stdout.Bytes(), &got); err != nil || len(got) != len(combos) {
				t.Fatal("run", "%v\n%s", err, stdout.String())
			}
			for i, c := range combos {
				w := c.want(name)
				if fmt.Sprint(got[i]) != fmt.Sprint(w) {
					src, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("p%03d", i), "gen.go"))
					t.Fail("binding "+c.String(), "got  %v\nwant %v\n%s", got[i], w, src)
				}
				t.State(c.String())
				t.Checked(c.mode, true)
				t.Sample("%s: %v", c, got[i])
			}
		})
	}
	cliNames := []string{"lin", "twoWords"}
	for _, name := range cliNames {
		for _, cuemod := range []string{"none", "root", "sub"} {
			var cs []bindCombo
			for _, cuepkg := range []string{"", "lin", "cuemod", "sub", "zzbind"} {
				for _, arg := range []string{"file", "dir"} {
					for _, extra := range []string{"none", "shared", "other"} {
						if extra == "shared" && arg == "file" {
							continue
						}
						if extra == "other" && arg == "dir" && cuemod != "none" { // refused, as CUE does
							continue
						}
						for _, abs := range []bool{false, true} {
							base := bindCombo{mode: "command", cli: &bindCLI{cuemod, cuepkg, arg, extra, abs}}
							cs = append(cs, base)
							c := base
							c.assignee, c.target, c.suffix = "T", bindVersions[len(cs)%3], "name"
							if g.Thorough() || name == "lin" {
								cs = append(cs, c)
							}
							if !g.Thorough() && (cuepkg != "" || extra != "none" || abs) {
								continue
							}
							for _, v := range bindVersions {
								c := base
								c.assignee, c.target, c.private = "*T", v, true
								cs = append(cs, c)
								c.nested, c.pkg = true, "custom"
								cs = append(cs, c)
							}
							c = base
							c.private = true
							cs = append(cs, c)
							c.suffix, c.nested = "name", true
							cs = append(cs, c)
						}
					}
				}
			}
			batch(fmt.Sprintf("%s command cue.mod=%s", name, cuemod), name, cs)
		}
	}
	names := []string{"lin", "twoWords"}
	if g.Thorough() {
		names = append(names, "UPPER", "x_1")
	}
	for _, name := range names {
		for _, mode := range []string{"full", "noloader", "nofs", "noembed", "subdir"} {
			var cs []bindCombo
			for _, suffix := range []string{"", "name", "title"} {
				for _, private := range []bool{false, true} {
					for _, nested := range []bool{false, true} {
						if !g.Thorough() && nested && (suffix != "" || private) {
							continue
						}
						base := bindCombo{suffix: suffix, private: private, nested: nested, mode: mode}
						cs = append(cs, base)
						for _, v := range bindVersions {
							for _, a := range []string{"T", "*T"} {
								if !g.Thorough() && a == "*T" && v != [2]int{0, 1} {
									continue
								}
								c := base
								c.assignee, c.target = a, v
								cs = append(cs, c)
							}
						}
						if !g.Thorough() && suffix != "name" {
							continue
						}
						c := base
						c.pkg = "custom"
						cs = append(cs, c)
						c.assignee, c.target = "T", [2]int{0, 1}
						cs = append(cs, c)
						c.pkg, c.apply = "", true
						cs = append(cs, c)
						c.assignee = ""
						cs = append(cs, c)
					}
				}
			}
			batch(fmt.Sprintf("%s %s", name, mode), name, cs)
		}
	}
}
