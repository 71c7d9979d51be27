package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/grafana/cuetsy"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/typescript"
)

func init() {
	register(&Prop{
		ID: "C21",
		Rule: "a case is one schema of the alphabet (1..2 fields, nested, references, joins, histories, groups) and one generator configuration; the generated TypeScript is parsed and its declarations compared " +
			"with the schema, member by member, and its default constants with the schema's defaults; non-trivial: the schema has a non-scalar, optional or defaulted field",
		Gen: genC21,
	})
}

// A TypeScript type, in canonical text: unions flattened, sorted and without
// duplicates, members in order of name.
type tsDecl struct {
	kind string // interface, type, const, enum
	name string
	typ  string
}

type tsParser struct {
	toks []string
	i    int
}

func tsLex(src string) (out []string) {
	rs := []rune(src)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '/' && i+1 < len(rs) && rs[i+1] == '*':
			for i += 2; !(rs[i] == '*' && rs[i+1] == '/'); i++ {
			}
			i += 2
		case r == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case r == '\'' || r == '"' || r == '`':
			j := i + 1
			for rs[j] != r {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, "'"+string(rs[i+1:j]))
			i = j + 1
		case unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$' || r == '-' || r == '.':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || strings.ContainsRune("_$", rs[j]) || rs[j] == '.' && unicode.IsDigit(r)) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		default:
			out = append(out, string(r))
			i++
		}
	}
	return out
}

func (p *tsParser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *tsParser) next() string {
	t := p.peek()
	p.i++
	return t
}

func (p *tsParser) want(s string) {
	if t := p.next(); t != s {
		panic(fmt.Sprintf("token %d: %q, want %q", p.i, t, s))
	}
}

func (p *tsParser) typ() string {
	var alts []string
	for {
		alts = append(alts, strings.Split(p.primary(), " | ")...)
		if p.peek() != "|" {
			break
		}
		p.next()
	}
	return tsUnion(alts)
}

func tsUnion(alts []string) string {
	sort.Strings(alts)
	var out []string
	for _, a := range alts {
		if len(out) == 0 || out[len(out)-1] != a {
			out = append(out, a)
		}
	}
	// a nested union within a compound stays there: it is bracketed
	return strings.Join(out, " | ")
}

func tsNest(s string) string { return strings.ReplaceAll(s, " | ", "‖") }

func (p *tsParser) primary() string {
	switch t := p.next(); t {
	case "(":
		s := p.typ()
		p.want(")")
		return s
	case "{":
		p.i--
		return p.members()
	case "Array":
		p.want("<")
		s := p.typ()
		p.want(">")
		return "[" + tsNest(s) + "]"
	case "Record":
		p.want("<")
		p.want("string")
		p.want(",")
		s := p.typ()
		p.want(">")
		return "map[" + tsNest(s) + "]"
	case "Partial":
		p.want("<")
		s := p.typ()
		p.want(">")
		return "Partial<" + s + ">"
	case "", ")", "}", ">", ";", ",", "|":
		panic(fmt.Sprintf("token %d: %q where a type should be", p.i, t))
	default:
		return t
	}
}

func (p *tsParser) members() string {
	p.want("{")
	var ms []string
	seen := map[string]bool{}
	for p.peek() != "}" {
		n := strings.TrimPrefix(p.next(), "'")
		if seen[n] {
			panic("member " + n + " twice")
		}
		seen[n] = true
		if p.peek() == "?" {
			p.next()
			n += "?"
		}
		p.want(":")
		ms = append(ms, n+": "+tsNest(p.typ()))
		if p.peek() == ";" || p.peek() == "," {
			p.next()
		}
	}
	p.want("}")
	sort.Strings(ms)
	return "{" + strings.Join(ms, "; ") + "}"
}

// value parses an object, array or literal of a default.
func (p *tsParser) value() string {
	switch t := p.next(); t {
	case "{":
		var ms []string
		for p.peek() != "}" {
			n := strings.TrimPrefix(p.next(), "'")
			p.want(":")
			ms = append(ms, n+": "+p.value())
			if p.peek() == "," || p.peek() == ";" {
				p.next()
			}
		}
		p.want("}")
		sort.Strings(ms)
		return "{" + strings.Join(ms, "; ") + "}"
	case "[":
		var es []string
		for p.peek() != "]" {
			es = append(es, p.value())
			if p.peek() == "," {
				p.next()
			}
		}
		p.want("]")
		return "[" + strings.Join(es, ", ") + "]"
	case "", "}", "]", ";", ",":
		panic(fmt.Sprintf("token %d: %q where a value should be", p.i, t))
	default:
		return t
	}
}

func parseTS(src string) (ds []tsDecl, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	p := &tsParser{toks: tsLex(src)}
	for p.i < len(p.toks) {
		export := ""
		if p.peek() == "export" {
			p.next()
			export = "export "
		}
		switch t := p.next(); t {
		case "interface":
			n := p.next()
			ds = append(ds, tsDecl{export + "interface", n, p.members()})
		case "type":
			n := p.next()
			p.want("=")
			ds = append(ds, tsDecl{export + "type", n, p.typ()})
			if p.peek() == ";" {
				p.next()
			}
		case "enum":
			n := p.next()
			p.want("{")
			var ms []string
			for p.peek() != "}" {
				m := p.next()
				if !unicode.IsUpper([]rune(m)[0]) {
					return nil, fmt.Errorf("enum member %q", m)
				}
				p.want("=")
				ms = append(ms, p.next())
				if p.peek() == "," {
					p.next()
				}
			}
			p.want("}")
			ds = append(ds, tsDecl{export + "enum", n, tsUnion(ms)})
		case "const":
			n := p.next()
			typ := ""
			if p.peek() == ":" {
				p.next()
				typ = p.typ()
			}
			p.want("=")
			ds = append(ds, tsDecl{export + "const " + typ, n, p.value()})
			if p.peek() == ";" {
				p.next()
			}
		default:
			return nil, fmt.Errorf("declaration starts with %q", t)
		}
	}
	return ds, nil
}

// tsLit is a literal.
func tsLit(v any) string {
	switch x := v.(type) {
	case string:
		return "'" + x
	case nil:
		return "null"
	case []any:
		var es []string
		for _, e := range x {
			es = append(es, tsLit(e))
		}
		return "[" + strings.Join(es, ", ") + "]"
	}
	return lit(v)
}

// tsType is the canonical TypeScript type of t.
func tsType(t Ty) string {
	switch x := t.(type) {
	case Scalar:
		switch x.K {
		case "string":
			return "string"
		case "int", "float", "number":
			return "number"
		case "bool":
			return "boolean"
		case "null":
			return "null"
		}
		return "unknown"
	case Range:
		return "number"
	case Pattern:
		return "string"
	case Pred:
		return "number"
	case Const:
		return tsLit(x.V)
	case Enum:
		var as []string
		for _, v := range x.V {
			as = append(as, tsLit(v))
		}
		return tsUnion(as)
	case Def:
		return tsType(x.Base)
	case Ref:
		if x.Name == "Def" {
			return "Def"
		}
		return tsType(x.T)
	case List:
		return "[" + tsNest(tsType(x.E)) + "]"
	case Map:
		return "map[" + tsNest(tsType(x.E)) + "]"
	case Struct:
		var ms []string
		for _, f := range x.F {
			n := f.Name
			if f.Opt {
				n += "?"
			}
			ms = append(ms, n+": "+tsNest(tsType(f.T)))
		}
		sort.Strings(ms)
		return "{" + strings.Join(ms, "; ") + "}"
	case Or:
		var as []string
		for _, e := range x.T {
			as = append(as, strings.Split(tsType(e), " | ")...)
		}
		return tsUnion(as)
	}
	panic(fmt.Sprintf("tsType %T", t))
}

// tsDefault is the default of a definition that is not a struct.
func tsDefault(t Ty) string {
	switch x := t.(type) {
	case Def:
		return tsLit(x.D)
	case List:
		return "[]"
	}
	return ""
}

// tsDefaults are the defaults of a struct's own fields.
func tsDefaults(s Struct) string {
	var ms []string
	for _, f := range s.F {
		switch x := f.T.(type) {
		case Ref:
			if tsDefault(x.T) != "" {
				ms = append(ms, f.Name+": default"+x.Name)
			}
		case Def:
			ms = append(ms, f.Name+": "+tsLit(x.D))
		case List:
			ms = append(ms, f.Name+": []")
		}
	}
	if ms == nil {
		return ""
	}
	sort.Strings(ms)
	return "{" + strings.Join(ms, "; ") + "}"
}

// tsSupported: bounds of strings have no TypeScript type and are refused.
func tsSupported(t string) bool { return !strings.Contains(t, "strings.M") }

type tsCfg struct {
	name, kind, root string
	mk               func() *typescript.TypeConfig
}

var tsCfgs = []tsCfg{
	{"", "interface", "Lin", func() *typescript.TypeConfig { return nil }},
	{"alias", "type", "Lin", func() *typescript.TypeConfig { return &typescript.TypeConfig{RootAsType: true} }},
	{"root", "interface", "Other", func() *typescript.TypeConfig { return &typescript.TypeConfig{RootName: "Other"} }},
}

func tsGenerate(t *T, sch thema.Schema, cfg *typescript.TypeConfig, what string) ([]tsDecl, string) {
	f, err := typescript.GenerateTypes(sch, cfg)
	t.Step()
	if !tsSupported(what) {
		if err == nil {
			t.Fail("bounds", "bounds of a string have no TypeScript type, but generation gave\n%s", f)
		}
		t.Checked("refused", true)
		return nil, ""
	}
	if err != nil {
		t.Fatal("generate", "generation failed: %s\n%s", err, what)
	}
	src := f.String()
	ds, err := parseTS(src)
	if err != nil {
		t.Fatal("parse", "generated TypeScript is malformed: %s\n%s\n%s", err, what, src)
	}
	return ds, src
}

// tsCompare compares declarations, in any order.
func tsCompare(t *T, got, want []tsDecl, what, src string) {
	str := func(ds []tsDecl) string {
		var ss []string
		for _, d := range ds {
			ss = append(ss, fmt.Sprintf("%s %s = %s", d.kind, d.name, d.typ))
		}
		sort.Strings(ss)
		return strings.Join(ss, "\n")
	}
	t.Checked("declarations", true)
	t.State(src)
	if str(got) != str(want) {
		t.Fail("declarations", "generated\n%s\nwant\n%s\nfor %s\n%s", str(got), str(want), what, src)
	}
}

func tsWant(s Struct, kind, root string) []tsDecl {
	w := []tsDecl{{"export " + kind, root, tsType(s)}}
	if d := tsDefaults(s); d != "" {
		w = append(w, tsDecl{"export const Partial<" + root + ">", "default" + root, d})
	}
	return w
}

func genC21(g *Gen) {
	for _, s := range docSchemas(g.Thorough()) {
		s := s
		st := s.T.(Struct)
		nested := true
		for _, f := range st.F {
			if in, ok := f.T.(Struct); ok {
				for _, f := range in.F {
					nested = nested && label(f.Name) == f.Name
				}
			}
		}
		if !nested {
			continue // cuetsy does not quote the names of nested members
		}
		for i, c := range tsCfgs {
			c := c
			if i > 0 && len(st.F) > 1 && !g.Thorough() {
				continue
			}
			g.Case(c.name+" "+s.Name, func(t *T) {
				lin := mustBind(t, LinSpec{Imports: imports(s.T), Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.T.cue()}}})
				if c.kind == "type" {
					if _, err := typescript.GenerateTypes(lin.First(), c.mk()); err != nil && s.Name != "a:string" {
						// a struct cannot be an alias, cuetsy says; see known_findings.jsonl
						t.Step()
						t.Checked("no alias", true)
						return
					}
				}
				ds, src := tsGenerate(t, lin.First(), c.mk(), s.T.cue())
				if src != "" {
					tsCompare(t, ds, tsWant(st, c.kind, c.root), s.T.cue(), src)
					t.Sample("%s => %s", s.T.cue(), src)
				}
			})
		}
	}
	for _, c := range docCases(g.Thorough(), true) {
		c := c
		if strings.HasPrefix(c.name, "ref ") || strings.HasPrefix(c.name, "join") && !(tsJoins(c.ty.(Struct).F[0].T) && tsJoins(c.ty.(Struct).F[1].T)) {
			continue
		}
		g.Case(c.name, func(t *T) {
			lin, err := bindText(t.RT(), c.lin)
			t.Step()
			if err != nil {
				t.Fatal("bind", "%s\n%s", err, c.lin)
			}
			ds, src := tsGenerate(t, thema.SchemaP(lin, sv(c.v)), nil, c.ty.cue())
			if src != "" {
				tsCompare(t, ds, tsWant(c.ty.(Struct), "interface", tsIdent(strings.Title(lin.Name()))), c.lin, src)
			}
		})
	}
	genTSRefs(g)
	genTSReuse(g)
}

// tsIdent is the name without what identifiers cannot have.
func tsIdent(s string) string { return strings.NewReplacer("-", "", ".", "").Replace(s) }

// tsJoins: cuetsy does not see unions through a join.
func tsJoins(t Ty) bool {
	switch x := t.(type) {
	case Or, Enum:
		return false
	case Pred:
		return tsSupported(x.Text)
	case Def:
		return tsJoins(x.Base)
	}
	return true
}

// genTSRefs: definitions with a kind become declarations, and are referred to.
func genTSRefs(g *Gen) {
	for _, l := range docLeaves() {
		if _, ok := l.T.(Range); ok || !tsSupported(l.T.cue()) || l.Name == "n>0<4" {
			continue // cuetsy refuses several bounds in a type
		}
		kinds := []string{"type"}
		switch x := l.T.(type) {
		case Struct:
			kinds = []string{"interface"}
		case Enum:
			if _, ok := x.V[0].(string); ok {
				kinds = append(kinds, "enum")
			}
		}
		d := Ref{"Def", l.T}
		for _, kind := range kinds {
			for i, s := range []Struct{
				st(req("a", d)), st(opt("a", d)), st(req("a", List{d})), st(req("a", Map{d})), st(req("a", d), opt("b", d)), st(req("a", st(req("b", d)))), st(req("a", tString), opt("b", List{st(opt("c", d))})),
				st(opt("a", tString)), st(req("a", Def{"q", tString}), opt("b", d)), st(req("a", Def{Num("3"), tInt}), req("b", List{d})),
			} {
				if l.Name == "any" && i == 3 {
					continue // a map of anything does not name its elements
				}
				for ci := 0; ci < 8; ci++ {
					l, kind, i, s, group, ci := l, kind, i, s, ci&1 != 0, ci
					g.Case(fmt.Sprintf("def %s %d %s cfg=%d", kind, i, l.Name, ci), func(t *T) {
						text := oneLin("lin", nil, strings.TrimSuffix(s.cue(), "}")+", #Def: "+d.T.cue()+" @cuetsy(kind=\""+kind+"\")}")
						lin, err := bindText(t.RT(), text)
						t.Step()
						if err != nil {
							t.Fatal("bind", "%s\n%s", err, text)
						}
						cfg, ex, root := &typescript.TypeConfig{Group: group}, "export ", "Lin"
						if ci&2 != 0 {
							cfg.CuetsyConfig, ex = &cuetsy.Config{ImportMapper: cuetsy.IgnoreImportMapper}, ""
						}
						if ci&4 != 0 {
							cfg.RootName, root = "Root", "Root"
						}
						ds, src := tsGenerate(t, lin.First(), cfg, text)
						want := []tsDecl{{ex + kind, "Def", tsType(l.T)}}
						if df := tsDefault(l.T); df != "" {
							want = append(want, tsDecl{ex + "const Def", "defaultDef", df})
						}
						if ls, ok := l.T.(Struct); ok {
							if df := tsDefaults(ls); df != "" {
								want = append(want, tsDecl{ex + "const Partial<Def>", "defaultDef", df})
							}
						}
						if !group {
							want = append(want, tsWant(s, "interface", root)...)
						}
						tsCompare(t, ds, want, text, src)
					})
				}
			}
		}
	}
}

// genTSReuse: one config used for a sequence of schemas gives what fresh ones give.
func genTSReuse(g *Gen) {
	def := "#Def: {x: int} @cuetsy(kind=\"interface\")"
	srcs := []namedText{
		{"plain", oneLin("lin", nil, st(req("a", tInt)).cue())},
		{"other", oneLin("other", nil, st(opt("b", Def{"s", tString})).cue())},
		{"ref", oneLin("lin", nil, "{a: #Def, "+def+"}")},
		{"bounds", oneLin("bounded", nil, "{a: strings.MinRunes(2)}")},
		{"history", oneLin("hist", nil, st(req("a", tInt)).cue(), "{b: [...#Def], "+def+"}")},
	}
	cfgs := []struct {
		name, root string
		mk         func() *typescript.TypeConfig
	}{
		{"empty", "", func() *typescript.TypeConfig { return &typescript.TypeConfig{} }},
		{"group", "", func() *typescript.TypeConfig { return &typescript.TypeConfig{Group: true} }},
		{"root", "Root", func() *typescript.TypeConfig { return &typescript.TypeConfig{RootName: "Root"} }},
		{"export", "", func() *typescript.TypeConfig {
			return &typescript.TypeConfig{CuetsyConfig: &cuetsy.Config{Export: true, ImportMapper: cuetsy.IgnoreImportMapper}}
		}},
		{"no export", "", func() *typescript.TypeConfig {
			return &typescript.TypeConfig{CuetsyConfig: &cuetsy.Config{Export: false, ImportMapper: cuetsy.IgnoreImportMapper}}
		}},
	}
	gen := func(t *T, lin thema.Lineage, cfg *typescript.TypeConfig) (out []string) {
		for _, s := range lin.All() {
			f, err := typescript.GenerateTypes(s, cfg)
			t.Step()
			if err != nil {
				out = append(out, "err")
				continue
			}
			out = append(out, f.String())
		}
		return out
	}
	depth := 2
	if g.Thorough() {
		depth = 4
	}
	for _, c := range cfgs {
		c := c
		forSeq(depth, len(srcs), func(seq []int) {
			key := "reuse " + c.name
			seq = append([]int{}, seq...)
			for _, i := range seq {
				key += " > " + srcs[i].name
			}
			g.Case(key, func(t *T) {
				rt := t.RT()
				shared := c.mk()
				for _, i := range seq {
					lin, err := bindText(rt, srcs[i].text)
					t.Step()
					if err != nil {
						t.Fatal("bind", "%s", err)
					}
					got, want := gen(t, lin, shared), gen(t, lin, c.mk())
					if fmt.Sprint(got) != fmt.Sprint(want) {
						t.Fatal("reuse", "a used config gives other types for %s\ngot  %v\nwant %v", srcs[i].name, got, want)
					}
					root := c.root
					if root == "" {
						root = strings.Title(lin.Name())
					}
					for _, src := range want {
						if srcs[i].name == "bounds" {
							if c.name != "group" && src != "err" {
								t.Fatal("bounds", "bounds were not refused:\n%s", src)
							}
							continue
						}
						ds, err := parseTS(src)
						if err != nil {
							t.Fatal("parse", "generated TypeScript is malformed: %s\n%s", err, src)
						}
						has := false
						for _, d := range ds {
							has = has || d.name == root
						}
						if has == (c.name == "group") {
							t.Fatal("root", "type %s declared: %v\n%s", root, has, src)
						}
					}
					t.Checked("same", true)
					t.State(fmt.Sprint(i))
				}
			})
		})
	}
}
