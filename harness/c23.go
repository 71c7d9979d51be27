package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"cuelang.org/go/cue"
	"cuelang.org/go/pkg/encoding/yaml"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/vmux"
)

func init() {
	register(&Prop{
		ID: "C23",
		Rule: "a case is one invocation of the thema command, built from the working tree, in a scratch directory: command x version flag x data x way the data is given x format flag x place of the lineage; " +
			"exit status and output are compared with what the library gives; non-trivial: data and lineage could be read",
		Gen: genC23,
	})
}

// cli runs the command in dir.
type cliRes struct {
	code     int
	out, err string
}

func themaBin() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(p), "thema")
}

// feed is how stdin is connected.
type feed int

const (
	feedNull feed = iota // a character device
	feedPipe
	feedFile
	feedSplit // a pipe, written to in two parts: see cliSplit
)

// cliSplit is a feed that gives the first n bytes, waits until they have been read,
// and then gives the rest.
func cliSplit(n int) feed { return feedSplit + feed(n) }

// startSplit starts the command so.
func startSplit(c *exec.Cmd, n int, stdin string) (wait func() error, err error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stdin = r
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	if n > len(stdin) {
		n = len(stdin)
	}
	_, _ = w.WriteString(stdin[:n])
	return func() error {
		defer w.Close()
		defer r.Close()
		for i := 0; i < 2000; i++ {
			var left int32
			syscall.Syscall(syscall.SYS_IOCTL, w.Fd(), 0x541B /* FIONREAD */, uintptr(unsafe.Pointer(&left)))
			if left == 0 {
				break
			}
			select {
			case err := <-done:
				return err
			case <-time.After(5 * time.Millisecond):
			}
		}
		time.Sleep(20 * time.Millisecond)
		_, _ = w.WriteString(stdin[n:])
		w.Close()
		return <-done
	}, nil
}

func cli(t *T, dir string, f feed, stdin string, args ...string) cliRes {
	c := exec.Command(themaBin(), args...)
	c.Dir = dir
	var out, er bytes.Buffer
	c.Stdout, c.Stderr = &out, &er
	switch f {
	case feedPipe:
		c.Stdin = strings.NewReader(stdin)
	case feedFile:
		p := filepath.Join(dir, "stdin.in")
		if err := os.WriteFile(p, []byte(stdin), 0o644); err != nil {
			panic(err)
		}
		fh, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		defer fh.Close()
		c.Stdin = fh
	}
	run := c.Run
	if f >= feedSplit {
		w, err := startSplit(c, int(f-feedSplit), stdin)
		if err != nil {
			panic(err)
		}
		run = w
	}
	err := run()
	t.Step()
	res := cliRes{out: out.String(), err: er.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		res.code = ee.ExitCode()
	}
	if strings.Contains(res.err, "goroutine ") {
		t.Fatal("crash", "thema %s crashed: %s", strings.Join(args, " "), res.err)
	}
	return res
}

// scratch makes a directory with files.
func scratch(files map[string]string) string {
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

const cliBody = `name: "Cli"
schemas: [{
	version: [0, 0]
	schema: {
		a: string
		d: int32 | *7
	}
}, {
	version: [0, 1]
	schema: {
		a: string
		d: int32 | *7
		e?: bool
	}
}, {
	version: [1, 0]
	schema: {
		z: string
		d: int32 | *8
		n: x: string | *"q"
	}
}]
lenses: [{
	from: [0, 1]
	to: [0, 0]
	input: _
	result: {a: input.a, d: input.d}
	lacunas: []
}, {
	from: [1, 0]
	to: [0, 1]
	input: _
	result: {a: input.z, d: input.d}
	lacunas: [{message: "n is lost", type: {name: "Placeholder", id: 1}, sourceFields: [{path: "n", value: input.n}], targetFields: []}]
}, {
	from: [0, 1]
	to: [1, 0]
	input: _
	result: {z: input.a, d: input.d, n: x: "from " + input.a}
	lacunas: []
}]
`

const themaImport = "import \"github.com/grafana/thema\"\n\n"

// cliBound is the same lineage, bound by the library.
func cliBound(t *T) thema.Lineage {
	lin, err := bindText(t.RT(), cliBody)
	if err != nil {
		t.Fatal("harness", "%s", err)
	}
	return lin
}

type cliPlace struct {
	name  string
	files map[string]string
	cwd   string
	args  []string // ABS is replaced with the directory
	ok    bool
}

func indent(s string) string {
	return "\t" + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n\t") + "\n"
}

func cliPlaces() []cliPlace {
	mod := "module: \"example.com/m\"\n"
	root := "package p\n\n" + themaImport + "thema.#Lineage\n" + cliBody
	bare := "package p\n\n" + cliBody
	nopkg := themaImport + "thema.#Lineage\n" + cliBody
	deep := "package p\n\n" + themaImport + "other: 1\nx: y: thema.#Lineage & {\n" + indent(cliBody) + "}\n"
	quoted := "package p\n\n" + themaImport + "\"a-b\": #L\n#L: thema.#Lineage & {\n" + indent(cliBody) + "}\n"
	half := strings.Index(cliBody, "lenses:")
	f := func(kv ...string) map[string]string {
		m := map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	return []cliPlace{
		{"file", f("lin.cue", root), "", []string{"-l", "lin.cue"}, true},
		{"dir", f("lin.cue", root), "", []string{"-l", "."}, true},
		{"long flag", f("lin.cue", root), "", []string{"--lineage", "lin.cue"}, true},
		{"absolute file", f("l/lin.cue", root), "", []string{"-l", "ABS/l/lin.cue"}, true},
		{"absolute dir", f("l/lin.cue", root), "", []string{"-l", "ABS/l"}, true},
		{"other dir", f("l/lin.cue", root, "w/x.txt", ""), "w", []string{"-l", "../l"}, true},
		{"other file", f("l/lin.cue", root, "w/x.txt", ""), "w", []string{"-l", "../l/lin.cue"}, true},
		{"module file", f("cue.mod/module.cue", mod, "lin.cue", root), "", []string{"-l", "lin.cue"}, true},
		{"module dir", f("cue.mod/module.cue", mod, "lin.cue", root), "", []string{"-l", "."}, true},
		{"module subdir", f("cue.mod/module.cue", mod, "a/b/lin.cue", root), "", []string{"-l", "a/b"}, true},
		{"module subdir file", f("cue.mod/module.cue", mod, "a/b/lin.cue", root), "", []string{"-l", "a/b/lin.cue"}, true},
		{"module from subdir", f("cue.mod/module.cue", mod, "a/b/lin.cue", root, "c/x.txt", ""), "c", []string{"-l", "../a/b"}, true},
		{"module abs", f("m/cue.mod/module.cue", mod, "m/a/lin.cue", root), "", []string{"-l", "ABS/m/a"}, true},
		{"bare", f("lin.cue", bare), "", []string{"-l", "lin.cue"}, true},
		{"no package", f("lin.cue", nopkg), "", []string{"-l", "lin.cue"}, true},
		{"no package module", f("cue.mod/module.cue", mod, "lin.cue", nopkg), "", []string{"-l", "lin.cue"}, true},
		{"path", f("lin.cue", deep), "", []string{"-l", "lin.cue", "-p", "x.y"}, true},
		{"path dir", f("lin.cue", deep), "", []string{"-l", ".", "--path", "x.y"}, true},
		{"path quoted", f("lin.cue", quoted), "", []string{"-l", "lin.cue", "-p", `"a-b"`}, true},
		{"path definition", f("lin.cue", quoted), "", []string{"-l", "lin.cue", "-p", `#L`}, true},
		{"path module", f("cue.mod/module.cue", mod, "s/lin.cue", deep), "", []string{"-l", "s", "-p", "x.y"}, true},
		{"two files", f("a.cue", "package p\n\n"+cliBody[:half], "b.cue", "package p\n\n"+cliBody[half:]), "", []string{"-l", "."}, true},
		{"two files module", f("cue.mod/module.cue", mod, "a.cue", "package p\n\n"+cliBody[:half], "b.cue", "package p\n\n"+cliBody[half:]), "", []string{"-l", "."}, true},
		{"two packages", f("lin.cue", root, "other.cue", "package q\n\nf: 1\n"), "", []string{"-l", "."}, true},
		{"two packages, second", f("a.cue", "package a\n\nf: 1\n", "lin.cue", root), "", []string{"-l", "."}, true},
		{"two packages, file", f("a.cue", "package a\n\nf: 1\n", "lin.cue", root), "", []string{"-l", "lin.cue"}, true},
		{"imported", f("cue.mod/module.cue", mod, "lib/lib.cue", deep, "lin.cue", "package q\n\nimport \"example.com/m/lib:p\"\n\np.x.y\n"), "", []string{"-l", "lin.cue"}, true},
		// not lineages
		{"missing file", f("lin.cue", root), "", []string{"-l", "nix.cue"}, false},
		{"missing dir", f("lin.cue", root), "", []string{"-l", "nix"}, false},
		{"no flag", f("lin.cue", root), "", nil, false},
		{"empty flag", f("lin.cue", root), "", []string{"-l", ""}, false},
		{"empty dir", f("l/x.txt", ""), "", []string{"-l", "l"}, false},
		{"two lineages", f("a.cue", root, "b.cue", strings.Replace(root, "package p", "package q", 1)), "", []string{"-l", "."}, false},
		{"syntax error", f("lin.cue", root+"}"), "", []string{"-l", "lin.cue"}, false},
		{"not a lineage", f("lin.cue", "package p\n\nf: 1\n"), "", []string{"-l", "lin.cue"}, false},
		{"no path flag", f("lin.cue", deep), "", []string{"-l", "lin.cue"}, false},
		{"wrong path", f("lin.cue", deep), "", []string{"-l", "lin.cue", "-p", "x.z"}, false},
		{"path to no lineage", f("lin.cue", deep), "", []string{"-l", "lin.cue", "-p", "other"}, false},
		{"malformed path", f("lin.cue", deep), "", []string{"-l", "lin.cue", "-p", "x..y"}, false},
		{"path into root", f("lin.cue", root), "", []string{"-l", "lin.cue", "-p", "schemas"}, false},
		{"invalid lineage", f("lin.cue", strings.Replace(root, "e?: bool", "e: bool", 1)), "", []string{"-l", "lin.cue"}, false},
		{"gap in versions", f("lin.cue", strings.Replace(root, "version: [1, 0]", "version: [2, 0]", 1)), "", []string{"-l", "lin.cue"}, false},
		{"unknown import", f("lin.cue", "package p\n\nimport \"example.com/nix\"\n\nf: nix.g\n"+cliBody), "", []string{"-l", "lin.cue"}, false},
		{"bad module", f("cue.mod/module.cue", "module: 5\n", "lin.cue", root), "", []string{"-l", "lin.cue"}, false},
	}
}

type cliDatum struct{ name, text string }

var cliData = []cliDatum{
	{"0.0", `{"a":"s","d":3}`},
	{"0.0 defaults", `{"a":"s"}`},
	{"0.0 is default", `{"a":"s","d":7}`},
	{"0.1", `{"a":"s","d":3,"e":true}`},
	{"1.0", `{"z":"s","d":3,"n":{"x":"y"}}`},
	{"1.0 defaults", `{"z":"s","n":{}}`},
	{"1.0 some defaults", `{"z":"s","d":8}`},
	{"wrong type", `{"a":5,"d":3}`},
	{"extra", `{"a":"s","f":1}`},
	{"empty object", `{}`},
	{"null", `null`},
	{"list", `[{"a":"s"}]`},
	{"scalar", `5`},
	{"string", `"a: s"`},
	{"yaml", "a: s\nd: 3\n"},
	{"yaml 1.0", "# comment\nz: s\nn:\n  x: \"y\"\n"},
	{"malformed", "{\"a\":\"s\",\n}: - x"},
	{"json then more", `{"a":"s"} {"a":"t"}`},
	{"nothing", ""},
}

type cliWay struct {
	name string
	file string // how the file is called; none: on stdin
	f    feed
}

var cliWays = []cliWay{
	{"pipe", "", feedPipe},
	{"redirect", "", feedFile},
	{"json file", "in.json", feedNull},
	{"ldjson file", "in.ldjson", feedNull},
	{"yaml file", "in.yaml", feedNull},
	{"yml file", "in.yml", feedNull},
	{"txt file", "in.txt", feedNull},
	{"file and stdin", "in.json", feedPipe},
}

// cliDecode is what the data is, given the flag and the name of the file.
func cliDecode(rt *thema.Runtime, text, format, file string) (cue.Value, bool) {
	j, y := vmux.NewJSONCodec("x"), vmux.NewYAMLCodec("x")
	isJ := strings.HasSuffix(file, ".json") || strings.HasSuffix(file, ".ldjson")
	isY := strings.HasSuffix(file, ".yaml") || strings.HasSuffix(file, ".yml")
	switch format {
	case "":
		v, err := j.Decode(rt.Context(), []byte(text))
		if err == nil {
			return v, true
		}
		v, err = y.Decode(rt.Context(), []byte(text))
		return v, err == nil
	case "json":
		if isY {
			return cue.Value{}, false
		}
		v, err := j.Decode(rt.Context(), []byte(text))
		return v, err == nil
	case "yaml":
		if isJ {
			return cue.Value{}, false
		}
		v, err := y.Decode(rt.Context(), []byte(text))
		return v, err == nil
	}
	return cue.Value{}, false
}

var cliCommands = []string{"validate", "validate-any", "hydrate", "dehydrate", "translate"}

var cliVersions = []string{"", "0.0", "0.1", "1.0", "0.2", "7.0", "x", "1", "1.0.0", "-1.0"}

// cliExpect is what the library makes of a data command: the output (as canonical
// text), and whether the command succeeds.
func cliExpect(t *T, lin thema.Lineage, cmd, ver string, v cue.Value) (string, bool) {
	var sch thema.Schema
	if ver != "" {
		sv, err := thema.ParseSyntacticVersion(ver)
		if err != nil {
			return "", false
		}
		if sch, err = lin.Schema(sv); err != nil {
			return "", false
		}
	}
	find := func() *thema.Instance {
		if sch != nil && cmd != "translate" {
			inst, err := sch.Validate(v)
			if err != nil {
				return nil
			}
			return inst
		}
		return lin.ValidateAny(v)
	}
	switch cmd {
	case "validate":
		s := sch
		if s == nil {
			s = lin.Latest()
		}
		_, err := s.Validate(v)
		return "", err == nil
	case "validate-any":
		inst := find()
		if inst == nil {
			inst = lin.ValidateAny(v)
		}
		if inst == nil {
			return "", false
		}
		return inst.Schema().Version().String() + "\n", true
	case "hydrate":
		if inst := find(); inst != nil {
			return valueOf(inst.Hydrate().Underlying()), true
		}
		return "", false
	case "dehydrate":
		if inst := find(); inst != nil {
			return valueOf(inst.Dehydrate().Underlying()), true
		}
		return "", false
	case "translate":
		if sch == nil {
			return "", false
		}
		inst := lin.ValidateAny(v)
		if inst == nil {
			return "", false
		}
		ti, lac, err := inst.Translate(sch.Version())
		if err != nil {
			return "", false
		}
		lj, err := json.Marshal(lac)
		if err != nil {
			t.Fatal("harness", "%s", err)
		}
		return canonText(fmt.Sprintf(`{"from":%q,"to":%q,"result":%s,"lacunas":%s}`, inst.Schema().Version(), ti.Schema().Version(), valueOf(ti.Underlying()), lj)), true
	}
	panic(cmd)
}

func cliCheckData(t *T, pl cliPlace, cmd, ver, format string, quiet bool, way cliWay, d cliDatum) {
	files := map[string]string{}
	for k, v := range pl.files {
		files[k] = v
	}
	args := []string{"data", cmd}
	root := scratch(files)
	defer os.RemoveAll(root)
	cwd := filepath.Join(root, pl.cwd)
	for _, a := range pl.args {
		args = append(args, strings.ReplaceAll(a, "ABS", root))
	}
	if ver != "" {
		if cmd == "translate" {
			args = append(args, "--to="+ver)
		} else {
			args = append(args, "--version="+ver)
		}
	}
	if format != "" {
		args = append(args, "-e", format)
	}
	if quiet {
		args = append(args, "-q")
	}
	stdin := d.text
	if way.file != "" {
		if err := os.WriteFile(filepath.Join(cwd, way.file), []byte(d.text), 0o644); err != nil {
			panic(err)
		}
		args = append(args, way.file)
		stdin = `{"z":"other","d":1,"n":{"x":"other"}}`
	}
	res := cli(t, cwd, way.f, stdin, args...)
	lin := cliBound(t)
	want, ok := "", false
	v, readable := cliDecode(t.RT(), d.text, format, way.file)
	if pl.ok && readable {
		want, ok = cliExpect(t, lin, cmd, ver, v)
	}
	cls := cmd + " fails"
	if ok {
		cls = cmd
	}
	t.Checked(cls, pl.ok && readable)
	t.State(fmt.Sprint(args), stdin)
	line := strings.Join(args, " ") + " < " + stdin
	wantCode := 1
	if ok {
		wantCode = 0
	}
	if res.code != wantCode {
		t.Fatal("status", "thema %s exits with %d, want %d\n%s%s", line, res.code, wantCode, res.out, res.err)
	}
	got := res.out
	if ok && (cmd == "hydrate" || cmd == "dehydrate" || cmd == "translate") {
		c, err := canon([]byte(res.out))
		if err != nil {
			t.Fatal("output", "thema %s: output is not JSON: %s\n%s", line, err, res.out)
		}
		got = lit(c)
	}
	if quiet {
		want = ""
	}
	if got != want {
		t.Fatal("output", "thema %s prints %s, want %s", line, got, want)
	}
	switch {
	case ok && res.err != "":
		t.Fail("stderr", "thema %s succeeds and prints on stderr: %s", line, res.err)
	case !ok && !quiet && res.err == "":
		t.Fail("stderr", "thema %s fails without a message", line)
	case quiet && pl.ok && readable && knownVersion(ver) && res.err != "":
		t.Fail("quiet", "thema %s prints on stderr: %s", line, res.err)
	}
	t.Sample("%s => %d %s", line, res.code, res.out)
}

func knownVersion(v string) bool { return v == "" || v == "0.0" || v == "0.1" || v == "1.0" }

func genC23(g *Gen) {
	places := cliPlaces()
	// data, versions, formats and ways of giving data, for one lineage
	for _, cmd := range cliCommands {
		for vi, ver := range cliVersions {
			for di, d := range cliData {
				for fi, format := range []string{"", "json", "yaml", "xml"} {
					for wi, way := range cliWays {
						for _, quiet := range []bool{false, true} {
							if quiet && (!strings.HasPrefix(cmd, "validate") || (!g.Thorough() && fi+wi > 0)) {
								continue
							}
							// quick: the data in all versions, and the ways in all formats
							if !g.Thorough() && !(fi+wi == 0 || (vi == 3 && (di == 0 || di == 4 || di == 7 || di == 15 || di >= 16) && cmd != "dehydrate")) {
								continue
							}
							cmd, ver, d, format, way, quiet := cmd, ver, d, format, way, quiet
							g.Case(fmt.Sprintf("data %s -v %q -e %q -q=%v %s: %s", cmd, ver, format, quiet, way.name, d.name), func(t *T) {
								cliCheckData(t, places[0], cmd, ver, format, quiet, way, d)
							})
						}
					}
				}
			}
		}
	}
	// data that arrives in two parts, split at every byte
	for _, d := range cliData[:8] {
		for n := 0; n <= len(d.text); n++ {
			for ci, cmd := range cliCommands {
				for vi, ver := range cliVersions[:4] {
					if !g.Thorough() && (ci*4+vi+n)%20 != 0 {
						continue
					}
					d, n, cmd, ver := d, n, cmd, ver
					g.Case(fmt.Sprintf("data %s -v %q in two parts, %d: %s", cmd, ver, n, d.name), func(t *T) {
						cliCheckData(t, places[0], cmd, ver, "", false, cliWay{f: cliSplit(n)}, d)
					})
				}
			}
		}
	}
	// much data
	for _, size := range []int{4096, 65535, 65536, 65537, 1 << 20, 3 << 20} {
		for _, cmd := range cliCommands {
			for _, way := range cliWays {
				if !g.Thorough() && size > 65537 && cmd != "translate" {
					continue
				}
				size, cmd, way := size, cmd, way
				g.Case(fmt.Sprintf("data %s %s of %d", cmd, way.name, size), func(t *T) {
					cliCheckData(t, places[0], cmd, "", "", false, way, cliDatum{"", `{"a":"` + strings.Repeat("x", size) + `"}`})
				})
			}
		}
	}
	// places
	for i, pl := range places {
		for ci, cmd := range cliCommands {
			for vi, ver := range cliVersions[:5] {
				for di, d := range cliData[:8] {
					if i == 0 || (!g.Thorough() && (ci+vi+di)%5 != 0) {
						continue
					}
					pl, cmd, ver, d := pl, cmd, ver, d
					g.Case(fmt.Sprintf("place %s: %s -v %q: %s", pl.name, cmd, ver, d.name), func(t *T) {
						cliCheckData(t, pl, cmd, ver, "", false, cliWays[0], d)
					})
				}
			}
		}
	}
	genCliGen(g, places)
	genCliInit(g)
	genCliFix(g)
}

func genCliGen(g *Gen, places []cliPlace) {
	for _, pl := range places {
		for _, kind := range []string{"openapi", "jsonschema"} {
			for vi, ver := range cliVersions {
				for fi, format := range []string{"", "json", "yaml", "yml", "xml"} {
					if !g.Thorough() && pl.name != "file" && (vi+fi)%4 != 0 {
						continue
					}
					pl, kind, ver, format := pl, kind, ver, format
					g.Case(fmt.Sprintf("gen %s %s -v %q -f %q", kind, pl.name, ver, format), func(t *T) { cliCheckDoc(t, pl, kind, ver, format) })
				}
			}
		}
		for vi, ver := range cliVersions {
			for pi, pkg := range []string{"", "mypkg"} {
				for si, stdout := range []bool{true, false} {
					if !g.Thorough() && pl.name != "file" && (vi+pi+si)%2 != 0 {
						continue
					}
					pl, ver, pkg, stdout := pl, ver, pkg, stdout
					g.Case(fmt.Sprintf("gen gotypes %s -v %q --pkgname %q stdout=%v", pl.name, ver, pkg, stdout), func(t *T) { cliCheckTypes(t, pl, ver, pkg, stdout) })
				}
			}
		}
	}
}

func cliSchema(lin thema.Lineage, ver string) thema.Schema {
	if ver == "" {
		return lin.Latest()
	}
	v, err := thema.ParseSyntacticVersion(ver)
	if err != nil {
		return nil
	}
	sch, err := lin.Schema(v)
	if err != nil {
		return nil
	}
	return sch
}

func cliGenArgs(pl cliPlace, root, kind, ver string) []string {
	args := []string{"lineage", "gen", kind}
	for _, a := range pl.args {
		args = append(args, strings.ReplaceAll(a, "ABS", root))
	}
	if ver != "" {
		args = append(args, "--version="+ver)
	}
	return args
}

// genOK tells whether the lineage can be used by gen: -l defaults to the current
// directory there.
func (pl cliPlace) genOK() bool { return pl.ok || pl.name == "no flag" }

func cliCheckDoc(t *T, pl cliPlace, kind, ver, format string) {
	root := scratch(pl.files)
	defer os.RemoveAll(root)
	args := cliGenArgs(pl, root, kind, ver)
	if format != "" {
		args = append(args, "-f", format)
	}
	res := cli(t, filepath.Join(root, pl.cwd), feedNull, "", args...)
	sch := cliSchema(cliBound(t), ver)
	ok := pl.genOK() && sch != nil && format != "xml"
	t.Checked(kind, ok)
	t.State(fmt.Sprint(args))
	line := strings.Join(args, " ")
	if (res.code == 0) != ok || res.code > 1 {
		t.Fatal("status", "thema %s exits with %d, want success=%v\n%s%s", line, res.code, ok, res.out, res.err)
	}
	if !ok {
		if res.out != "" || res.err == "" {
			t.Fail("failure", "thema %s fails with output %q and message %q", line, res.out, res.err)
		}
		return
	}
	var want string
	if kind == "openapi" {
		f, err := openapi.GenerateSchema(sch, nil)
		if err != nil {
			t.Fatal("harness", "%s", err)
		}
		want = valueOf(t.RT().Context().BuildFile(f))
	} else {
		f, err := jsonschema.GenerateSchema(sch)
		if err != nil {
			t.Fatal("harness", "%s", err)
		}
		want = valueOf(t.RT().Context().BuildFile(f))
	}
	js := res.out
	if format == "yaml" || format == "yml" || (format == "" && kind == "openapi") {
		if strings.HasPrefix(strings.TrimSpace(js), "{") {
			t.Fail("format", "thema %s prints JSON: %s", line, js)
		}
		e, err := yaml.Unmarshal([]byte(js))
		if err != nil {
			t.Fatal("output", "thema %s: output is not YAML: %s\n%s", line, err, js)
		}
		js = valueOf(t.RT().Context().BuildExpr(e))
	}
	c, err := canon([]byte(js))
	if err != nil {
		t.Fatal("output", "thema %s: output is not JSON: %s\n%s", line, err, js)
	}
	if lit(c) != want {
		t.Fail("output", "thema %s prints %s, want %s", line, lit(c), want)
	}
}

// afterHeader is the text without the leading comments.
func afterHeader(s string) string {
	i := strings.Index(s, "package ")
	if i < 0 {
		return s
	}
	return s[i:]
}

func cliCheckTypes(t *T, pl cliPlace, ver, pkg string, stdout bool) {
	root := scratch(pl.files)
	defer os.RemoveAll(root)
	args := cliGenArgs(pl, root, "gotypes", ver)
	if pkg != "" {
		args = append(args, "--pkgname", pkg)
	}
	if stdout {
		args = append(args, "--stdout")
	}
	cwd := filepath.Join(root, pl.cwd)
	res := cli(t, cwd, feedNull, "", args...)
	sch := cliSchema(cliBound(t), ver)
	ok := pl.genOK() && sch != nil
	t.Checked("gotypes", ok)
	t.State(fmt.Sprint(args))
	line := strings.Join(args, " ")
	if (res.code == 0) != ok || res.code > 1 {
		t.Fatal("status", "thema %s exits with %d, want success=%v\n%s%s", line, res.code, ok, res.out, res.err)
	}
	var made []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if _, given := pl.files[filepath.ToSlash(rel)]; !given && !fi.IsDir() {
			made = append(made, rel)
		}
		return nil
	})
	if !ok {
		if res.out != "" || res.err == "" || len(made) != 0 {
			t.Fail("failure", "thema %s fails with output %q, message %q, files %q", line, res.out, res.err, made)
		}
		return
	}
	b, err := gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{PackageName: pkg})
	if err != nil {
		t.Fatal("harness", "%s", err)
	}
	text := res.out
	if !stdout {
		dir := ""
		for f := range pl.files {
			if strings.HasSuffix(f, "lin.cue") || f == "a.cue" && dir == "" {
				dir = filepath.Dir(f)
			}
		}
		if want := filepath.Join(dir, "cli_types_gen.go"); len(made) != 1 || made[0] != want {
			t.Fatal("file", "thema %s writes %q, want %s", line, made, want)
		}
		fb, err := os.ReadFile(filepath.Join(root, made[0]))
		if err != nil {
			panic(err)
		}
		text = string(fb)
	} else if len(made) != 0 {
		t.Fail("file", "thema %s writes %q", line, made)
	}
	if afterHeader(text) != afterHeader(string(b)) {
		t.Fail("output", "thema %s gives\n%s\nwant\n%s", line, text, b)
	}
}
