package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	cuejson "cuelang.org/go/encoding/json"
	cueyaml "cuelang.org/go/encoding/yaml"
	"github.com/grafana/thema"
)

func init() {
	register(&Prop{
		ID: "C28",
		Rule: "a case is a schema, a version, a place of the lineage in its file; the data are all combinations of probe values; the error of every datum that is not an instance is taken apart and each place, value and " +
			"position it names is compared with the datum and the reference model; non-trivial: a field is present",
		Gen: genC28,
	})
}

type vEntry struct {
	path            string
	text            string
	kind            string // conflict, missing, other
	sch, data       string
	schPos, dataPos []string
}

var (
	reEntry = regexp.MustCompile(`<([^<>\n]*)@v(\d+\.\d+)>\.([^\n]*?): validation failed`)
	rePos   = regexp.MustCompile(`^\s+(\S*):(\d+):(\d+)$`)
)

// entries takes an error text apart.
func entries(s string) (out []vEntry, names, vers []string) {
	ix := reEntry.FindAllStringSubmatchIndex(s, -1)
	for i, m := range ix {
		end := len(s)
		if i+1 < len(ix) {
			end = ix[i+1][0]
		}
		names = append(names, s[m[2]:m[3]])
		vers = append(vers, s[m[4]:m[5]])
		e := vEntry{path: s[m[6]:m[7]], text: s[m[0]:end], kind: "other"}
		cur := &e.schPos
		for _, l := range strings.Split(e.text, "\n")[1:] {
			between := func(pre string) (string, bool) {
				k := strings.Index(l, pre)
				if k < 0 || !strings.HasSuffix(l, "`") {
					return "", false
				}
				return strings.TrimSuffix(l[k+len(pre):], "`"), true
			}
			if x, ok := between("schema expected `"); ok {
				e.kind, e.sch, cur = "conflict", x, &e.schPos
			} else if x, ok := between("but data contained `"); ok {
				e.data, cur = x, &e.dataPos
			} else if x, ok := between("schema specifies that field exists with type `"); ok {
				e.kind, e.sch, cur = "missing", x, &e.schPos
			} else if strings.Contains(l, "but field was absent from data") {
				cur = &e.dataPos
			} else if p := rePos.FindStringSubmatch(l); p != nil {
				*cur = append(*cur, p[1])
			}
		}
		out = append(out, e)
	}
	return
}

// splitLabels takes a path apart into labels; labels may be quoted.
func splitLabels(p string) []string {
	var out []string
	for p != "" {
		if p[0] == '"' {
			if q, err := strconv.QuotedPrefix(p); err == nil {
				u, _ := strconv.Unquote(q)
				out = append(out, u)
				p = strings.TrimPrefix(p[len(q):], ".")
				continue
			}
		}
		l, rest, _ := strings.Cut(p, ".")
		out = append(out, l)
		p = rest
	}
	return out
}

// at is the value at a path of a datum.
func at(d any, path []string) (any, bool) {
	for _, l := range path {
		switch x := d.(type) {
		case map[string]any:
			v, ok := x[l]
			if !ok {
				return nil, false
			}
			d = v
		case []any:
			i, err := strconv.Atoi(l)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			d = x[i]
		default:
			return nil, false
		}
	}
	return d, true
}

// wrongAt reports whether a datum that t does not accept is wrong at path: what lies
// there is not accepted by what t has there (below a union, it is enough that the
// value of the union is not accepted).
func wrongAt(t Ty, d any, path []string) bool {
	if _, ok := accept(t, d); ok {
		return false
	}
	if len(path) == 0 {
		return true
	}
	switch x := t.(type) {
	case Struct:
		m, ok := d.(map[string]any)
		if !ok {
			return true
		}
		v, present := m[path[0]]
		for _, f := range x.F {
			if f.Name == path[0] {
				if !present {
					if f.Opt {
						return false
					}
					_, ok := complete(f.T)
					return !ok
				}
				return wrongAt(f.T, v, path[1:])
			}
		}
		return present && !x.Open
	case List:
		l, ok := d.([]any)
		if !ok {
			return true
		}
		i, err := strconv.Atoi(path[0])
		return err == nil && i >= 0 && i < len(l) && wrongAt(x.E, l[i], path[1:])
	case Map:
		m, ok := d.(map[string]any)
		if !ok {
			return true
		}
		v, present := m[path[0]]
		return present && wrongAt(x.E, v, path[1:])
	case Tuple:
		l, ok := d.([]any)
		if !ok {
			return true
		}
		i, err := strconv.Atoi(path[0])
		if err != nil || i < 0 {
			return false
		}
		if i < len(l) && i < len(x.E) {
			return wrongAt(x.E[i], l[i], path[1:])
		}
		return true
	}
	return true
}

// fileData is data from a file of that name: YAML, JSON, or CUE where it has no name.
func fileData(rt *thema.Runtime, js, name string) cue.Value {
	if strings.HasSuffix(name, ".yaml") {
		f, err := cueyaml.Extract(name, []byte(js))
		if err != nil {
			panic(fmt.Sprintf("harness: bad yaml %s: %s", js, err))
		}
		return rt.Context().BuildFile(f)
	}
	if strings.HasSuffix(name, ".json") {
		expr, err := cuejson.Extract(name, []byte(js))
		if err != nil {
			panic(fmt.Sprintf("harness: bad json %s: %s", js, err))
		}
		return rt.Context().BuildExpr(expr)
	}
	return rt.Context().CompileString(js, cue.Filename(name))
}

// undecided: what lies at path is in no conflict with the schema, but lacks something.
func undecided(t Ty, d any, path []string) bool {
	if len(path) == 0 {
		_, ok := accept(t, d)
		return !ok && possible(t, d)
	}
	switch x := t.(type) {
	case Struct:
		m, _ := d.(map[string]any)
		for _, f := range x.F {
			if v, ok := m[path[0]]; ok && f.Name == path[0] {
				return undecided(f.T, v, path[1:])
			}
		}
	case List:
		l, _ := d.([]any)
		i, err := strconv.Atoi(path[0])
		return err == nil && i >= 0 && i < len(l) && undecided(x.E, l[i], path[1:])
	case Map:
		m, _ := d.(map[string]any)
		return undecided(x.E, m[path[0]], path[1:])
	}
	return false
}

// place puts the text of a lineage somewhere in a file.
type place struct {
	name, pre, post string
	path            []cue.Selector
}

func genC28(g *Gen) {
	probes2 := []any{absent, nil, true, "a", "zz", Num("1"), Num("4"), Num("300"), Num("1.5"), arr("a"), obj(), obj("x", Num("1"))}
	places := []place{
		{name: "root"},
		{"field", "lin: {\n", "}\n", []cue.Selector{cue.Str("lin")}},
		{"deep", "a: b: {\n", "}\n", []cue.Selector{cue.Str("a"), cue.Str("b")}},
		{"schemas", "schemas: {\n", "}\n", []cue.Selector{cue.Str("schemas")}},
		{"schemas.x.schemas", "schemas: x: schemas: {\n", "}\n", []cue.Selector{cue.Str("schemas"), cue.Str("x"), cue.Str("schemas")}},
	}
	vers := [][][2]int{{{0, 0}}, {{0, 0}, {1, 0}, {2, 0}}}
	run := func(key string, s namedTy, pl place, vs [][2]int, vi int, probes []any, fn, dfn string) {
		g.Case(key, func(t *T) {
			rt := t.RT()
			stt := s.T.(Struct)
			spec := LinSpec{Name: "lin"}
			for i, v := range vs {
				body := fmt.Sprintf("{other%d: int}", i)
				if i == vi {
					body = s.T.cue()
				}
				spec.Schemas = append(spec.Schemas, SchSpec{V: v, Body: body})
			}
			for _, p := range lensPairs(vs) {
				spec.Lenses = append(spec.Lenses, LensSpec{From: p[0], To: p[1], Result: "_"})
			}
			root := rt.Context().CompileString(pl.pre+spec.cue()+pl.post, cue.Filename(fn))
			lin, err := thema.BindLineage(root.LookupPath(cue.MakePath(pl.path...)), rt, thema.SkipBuggyChecks())
			t.Step()
			if err != nil {
				t.Fatal("bind", "lineage rejected: %s\n%s", err, spec.cue())
			}
			sch, err := lin.Schema(sv(vs[vi]))
			if err != nil {
				t.Fatal("schema", "%s", err)
			}
			seen := map[string]bool{}
			one := func(d any) {
				js := lit(d)
				if seen[js] {
					return
				}
				seen[js] = true
				if _, ok := accept(s.T, d); ok {
					return
				}
				_, err := sch.Validate(fileData(rt, js, dfn))
				t.Step()
				if err == nil {
					return // C03
				}
				t.State(key, js)
				c28Error(t, s.T, vs[vi], d, js, dfn, strings.HasSuffix(fn, ".cue"), err)
			}
			dataFor(stt, probes, one)
			for _, top := range []any{nil, true, "a", Num("1"), arr(), arr(obj())} {
				one(top)
			}
		})
	}
	var n int
	for _, s := range c03Schemas(g.Thorough()) {
		two := len(s.T.(Struct).F) > 1
		n++
		switch {
		case !two:
			run("root/"+s.Name, s, places[0], vers[0], 0, probeValues, "lin.cue", "data.json")
		case strings.HasSuffix(s.Name, "/0") || g.Thorough():
			run("root/"+s.Name, s, places[0], vers[0], 0, probes2, "lin.cue", "data.json")
		}
	}
	for _, l := range leafTypes {
		for _, s := range []namedTy{{"a:" + l.Name, st(req("a", l.T))}, {"a:{b:" + l.Name + "}", st(req("a", st(req("b", l.T))))}, {"schemas:" + l.Name, st(req("schemas", l.T))}} {
			for _, dfn := range []string{"", "-", "d.yaml", "data", "lin.cue.json"} {
				run(fmt.Sprintf("data %q/%s", dfn, s.Name), s, places[0], vers[0], 0, probes2, "lin.cue", dfn)
			}
			// a lineage from a file that is not named as CUE: positions cannot be told apart
			run("lin without name/"+s.Name, s, places[0], vers[0], 0, probes2, "", "data.json")
			for _, pl := range places {
				for _, vs := range vers {
					for vi := range vs {
						if pl.name == "root" && len(vs) == 1 && s.Name[0] == 'a' {
							continue
						}
						run(fmt.Sprintf("%s/%d.%d/%s", pl.name, len(vs), vi, s.Name), s, pl, vs, vi, probes2, "dir/lin.cue", "dir/data.json")
					}
				}
			}
		}
	}
}

func c28Error(t *T, ty Ty, v [2]int, d any, js, dfn string, pos bool, err error) {
	msg := err.Error()
	es, names, vs := entries(msg)
	var kinds []string
	if len(es) == 0 {
		t.Fail("unlocated "+js, "schema %s data %s: the error names no place: %s", ty.cue(), js, msg)
		return
	}
	fail := func(sig string, e vEntry, format string, args ...any) {
		t.Fail(sig+" "+e.path+" "+js, "schema %s %s data %s: %s\nin:\n%s", vstr(v), ty.cue(), js, fmt.Sprintf(format, args...), msg)
	}
	named := map[string]bool{}
	for i, e := range es {
		kinds = append(kinds, e.kind)
		if names[i] != "lin" || vs[i] != vstr(v) {
			fail("coords", e, "lineage %s version %s", names[i], vs[i])
		}
		p := splitLabels(e.path)
		if e.path == "" {
			p = nil
		}
		if _, isMap := d.(map[string]any); isMap && len(p) == 0 && !strings.Contains(e.text, "\"\"") {
			// the label "" leaves an empty path
			if _, has := d.(map[string]any)[""]; has {
				p = []string{""}
			} else if s, ok := ty.(Struct); ok && len(s.F) == 1 && s.F[0].Name == "" {
				p = []string{""}
			}
		}
		if len(p) > 0 {
			named[p[0]] = true
		}
		if !wrongAt(ty, d, p) {
			fail("place", e, "nothing is wrong at %q", e.path)
		}
		val, present := at(d, p)
		switch e.kind {
		case "conflict":
			got := t.RT().Context().CompileString(e.data)
			if !present {
				fail("absent", e, "there is no data at %q", e.path)
			} else if got.Err() != nil || valueOf(got) != valueOf(mkdata(t.RT(), val)) {
				fail("data", e, "the data at %q is %s, not %s", e.path, lit(val), e.data)
			}
		case "missing":
			// The value of a union is incomplete, too, where several branches are
			// possible.
			if present && !undecided(ty, d, p) {
				fail("missing", e, "there is data at %q: %s", e.path, lit(val))
			}
		}
		for _, f := range e.schPos {
			if pos && !strings.HasSuffix(f, ".cue") {
				fail("schpos", e, "%s is not a schema file", f)
			}
		}
		for _, f := range e.dataPos {
			if pos && f != dfn {
				fail("datapos", e, "%s is not the data file", f)
			}
		}
	}
	// Every field that is in conflict is named; if there is none, every missing one.
	if m, ok := d.(map[string]any); ok {
		s := ty.(Struct)
		conflict := false
		decl := map[string]Field{}
		for _, f := range s.F {
			decl[f.Name] = f
		}
		for _, k := range keysOf(m) {
			f, is := decl[k]
			if is && possible(f.T, m[k]) || !is && s.Open {
				continue
			}
			conflict = true
			if !named[k] {
				t.Fail("unnamed "+k+" "+js, "schema %s data %s: field %q is wrong, but not named:\n%s", ty.cue(), js, k, msg)
			}
		}
		for _, f := range s.F {
			if _, present := m[f.Name]; present || conflict || f.Opt {
				continue
			}
			if _, ok := complete(f.T); !ok && !named[f.Name] {
				t.Fail("unnamed "+f.Name+" "+js, "schema %s data %s: field %q is missing, but not named:\n%s", ty.cue(), js, f.Name, msg)
			}
		}
	}
	t.Checked(strings.Join(uniq(kinds), "+"), js != "{}")
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}
