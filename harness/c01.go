package main

import (
	"fmt"

	"cuelang.org/go/cue"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
)

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "a case is a sequence of (version, schema body) entries, or a malformed lineage, in one of several surface forms; bind's verdict is compared with " +
			"the reference rule (starts at 0.0, each next version is minor+1 iff compatible with the immediate predecessor, else major+1); non-trivial: more than one schema or malformed",
		Gen: genC01,
	})
	register(&Prop{
		ID: "C02",
		Rule: "a case is an ordered pair of schemas over the field-type alphabet; both numberings (0.0,0.1 and 0.0,1.0) are bound; " +
			"accepted minor bumps are checked instance by instance over the complete probe product; also all sequences of three and four schemas, the last bound under both numberings; non-trivial: the two schemas differ",
		Gen: genC02,
	})
}

// compatUniverse is the set of schema bodies over which all ordered pairs are taken.
func compatUniverse() []namedTy {
	var out []namedTy
	for _, l := range leafTypes {
		out = append(out, namedTy{"a:" + l.Name, st(req("a", l.T))})
		out = append(out, namedTy{"a?:" + l.Name, st(opt("a", l.T))})
	}
	add := func(n string, t Ty) { out = append(out, namedTy{n, t}) }
	for _, i := range []int{0, 1, 11, 13, 15, 18, 20, 24, 25, 26} {
		l := leafTypes[i]
		add("a:string,b:"+l.Name, st(req("a", tString), req("b", l.T)))
		add("a:string,b?:"+l.Name, st(req("a", tString), opt("b", l.T)))
		add("a:{b:"+l.Name+"}", st(req("a", st(req("b", l.T)))))
		add("a:{b?:"+l.Name+"}", st(req("a", st(opt("b", l.T)))))
	}
	add("a:open", Struct{F: []Field{req("a", tString)}, Open: true})
	add("a?,b?", st(opt("a", tString), opt("b", tInt)))
	add("a:def,b?", st(req("a", Def{"zz", tString}), opt("b", tInt)))
	return out
}

// includes decides whether every instance of p within the probe product is an
// instance of s that still means the same: no value the old schema supplied by
// default is supplied differently by the new one. The probe product separates
// all types of the alphabet.
func includes(p, s Struct) (bool, string) {
	names := map[string]bool{}
	var fs []Field
	for _, f := range append(append([]Field{}, p.F...), s.F...) {
		if !names[f.Name] {
			names[f.Name] = true
			fs = append(fs, f)
		}
	}
	ok, w := true, ""
	dataFor2(fs, func(d map[string]any) bool {
		if rp, in := accept(p, d); in {
			if rs, in2 := accept(s, d); !in2 || !extends(rs, rp) {
				ok, w = false, lit(d)
				return false
			}
		}
		return true
	})
	return ok, w
}

// extends reports whether no value in b is a different one in a.
func extends(a, b any) bool {
	switch y := b.(type) {
	case map[string]any:
		x, ok := a.(map[string]any)
		if !ok {
			return false
		}
		for k, v := range y {
			w, ok := x[k]
			if ok && !extends(w, v) {
				return false
			}
		}
		return true
	case []any:
		x, ok := a.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range y {
			if !extends(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return lit(a) == lit(b)
}

// defaultsOf lists the declared defaults of a schema, with their paths.
func defaultsOf(t Ty, path string) string {
	switch x := t.(type) {
	case Def:
		return path + "=" + lit(x.D) + ";"
	case List:
		return defaultsOf(x.E, path+"[]")
	case Map:
		return defaultsOf(x.E, path+"{}")
	case Struct:
		out := ""
		for _, f := range x.F {
			out += defaultsOf(f.T, path+"."+f.Name)
		}
		return out
	}
	return ""
}

// dataFor2 enumerates probe values for the named fields, including nested
// structs with every probe value in their field, and undeclared fields.
func dataFor2(fs []Field, f func(d map[string]any) bool) {
	vals := func() []any {
		out := append([]any{}, probeValues...)
		for _, p := range probeValues {
			if p != absent {
				out = append(out, obj("b", p))
			}
		}
		return out
	}()
	small := probeValues
	var rec func(i int, cur map[string]any) bool
	rec = func(i int, cur map[string]any) bool {
		if i == len(fs) {
			c := map[string]any{}
			for k, v := range cur {
				c[k] = v
			}
			if !f(c) {
				return false
			}
			c2 := map[string]any{"undeclared": Num("1")}
			for k, v := range cur {
				c2[k] = v
			}
			return f(c2)
		}
		ps := vals
		if i > 0 {
			ps = small
		}
		for _, p := range ps {
			if p == absent {
				delete(cur, fs[i].Name)
			} else {
				cur[fs[i].Name] = p
			}
			if !rec(i+1, cur) {
				return false
			}
		}
		delete(cur, fs[i].Name)
		return true
	}
	rec(0, map[string]any{})
}

func genC02(g *Gen) {
	genC02Hist(g, histBodies, 3)
	if g.Thorough() {
		genC02Hist(g, histBodies, 4)
	} else {
		genC02Hist(g, []namedTy{histBodies[0], histBodies[1], histBodies[2], histBodies[5]}, 4)
	}
	u := compatUniverse()
	for _, p := range u {
		for _, s := range u {
			p, s := p, s
			g.Case(p.Name+" => "+s.Name, func(t *T) {
				rt := t.RT()
				want, w := includes(p.T.(Struct), s.T.(Struct))
				// Whether adding or dropping a default, without invalidating any data or
				// changing what it means, is breaking is left open by the documentation;
				// it is only required that exactly one numbering is accepted.
				open := want && defaultsOf(p.T, "") != defaultsOf(s.T, "")
				var got [2]bool
				var texts [2]string
				var errs [2]error
				for i, v := range [][2]int{{0, 1}, {1, 0}} {
					texts[i] = LinSpec{Name: "lin", NoLens: true, Schemas: []SchSpec{{V: [2]int{0, 0}, Body: p.T.cue()}, {V: v, Body: s.T.cue()}}}.cue()
					_, errs[i] = bindText(rt, texts[i])
					got[i] = errs[i] == nil
					t.Step()
					t.State(vstr(v))
					t.Checked(fmt.Sprintf("compatible=%v open=%v as %s bound=%v", want, open, vstr(v), got[i]), p.Name != s.Name)
					if !got[i] && !errors.Is(errs[i], terrors.ErrInvalidLineage) {
						t.Fail("errclass "+vstr(v), "not ErrInvalidLineage: %v", errs[i])
					}
				}
				t.Sample("%s", texts[0])
				if got[0] == got[1] {
					t.Fail("both", "accepted as minor=%v and as major=%v: %v / %v\n%s", got[0], got[1], errs[0], errs[1], texts[0])
				} else if !open && got[0] != want {
					t.Fail("verdict", "compatible=%v (witness %s), as minor err=%v as major err=%v\n%s", want, w, errs[0], errs[1], texts[0])
				}
			})
		}
	}
}

// history bodies: compatibility within them is neither total nor transitive
// through the head of a major, and changes of defaults are included.
var histBodies = []namedTy{
	{"A", st(req("a", tString))},
	{"AB", st(req("a", tString), opt("b", tInt))},
	{"AC", st(req("a", tString), opt("c", tBool))},
	{"ABC", st(req("a", tString), opt("b", tInt), opt("c", tBool))},
	{"d1", st(req("b", Def{Num("1"), tInt}))},
	{"d2", st(req("b", Def{Num("4"), tInt}))},
	{"az", st(req("a", Pattern{"=~\"^z\"", "z"}))},
	{"N", st(req("a", st()))},
	{"NB", st(req("a", st(opt("b", tInt))))},
}

// genC02Hist: the numbering rule relates a schema to its direct predecessor,
// whatever came before. All sequences of n bodies; all but the last step are
// numbered as the rule says, the last one is bound under both numberings.
func genC02Hist(g *Gen, bodies []namedTy, n int) {
	tab := compatTable(bodies)
	forSeq(n, len(bodies), func(ix []int) {
		key := "hist"
		for _, i := range ix {
			key += " " + bodies[i].Name
		}
		g.Case(key, func(t *T) {
			l := LinSpec{Name: "lin", NoLens: true}
			v := [2]int{0, 0}
			for k, i := range ix[:n-1] {
				if k > 0 {
					if tab[ix[k-1]][i] {
						v = [2]int{v[0], v[1] + 1}
					} else {
						v = [2]int{v[0] + 1, 0}
					}
				}
				l.Schemas = append(l.Schemas, SchSpec{V: v, Body: bodies[i].T.cue()})
			}
			want := tab[ix[n-2]][ix[n-1]]
			for k, nv := range [][2]int{{v[0], v[1] + 1}, {v[0] + 1, 0}} {
				m := l
				m.Schemas = append(append([]SchSpec{}, l.Schemas...), SchSpec{V: nv, Body: bodies[ix[n-1]].T.cue()})
				_, err := bindText(t.RT(), m.cue())
				t.Step()
				t.State(vstr(nv))
				exp := want == (k == 0)
				t.Checked(fmt.Sprintf("history compatible=%v step=%d accepted=%v", want, k, exp), true)
				if exp != (err == nil) {
					t.Fail("hist "+vstr(nv), "after %s, expected accepted=%v as %s: err=%v\n%s", vstr(v), exp, vstr(nv), err, m.cue())
				}
			}
			t.Sample("%s", key)
		})
	})
}

// bodies used for sequences; pairwise compatibility is decided by includes().
var seqBodies = []namedTy{
	{"A", st(req("a", tString))},
	{"AB", st(req("a", tString), opt("b", tInt))},
	{"ABC", st(req("a", tString), opt("b", tInt), opt("c", tBool))},
	{"Z", st(req("z", tInt))},
}

func compatTable(bodies []namedTy) [][]bool {
	out := make([][]bool, len(bodies))
	for i := range bodies {
		out[i] = make([]bool, len(bodies))
		for j := range bodies {
			out[i][j], _ = includes(bodies[i].T.(Struct), bodies[j].T.(Struct))
		}
	}
	return out
}

func forSeq(n, k int, f func(ix []int)) {
	ix := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int{}, ix...))
			return
		}
		for c := 0; c < k; c++ {
			ix[i] = c
			rec(i + 1)
		}
	}
	rec(0)
}

// surface forms in which the same lineage can be handed to BindLineage
var forms = []string{"plain", "lindef&v", "v&lindef", "#Lineage&expr", "split", "#Lineage&split", "embedded", "#Lineage&three first", "#Lineage&three last", "#Lineage twice", "#Lineage twice&three", "three"}

func bindForm(rt *thema.Runtime, form string, l LinSpec, opts ...thema.BindOption) (thema.Lineage, error) {
	ctx := rt.Context()
	lindef := rt.Underlying().LookupPath(cue.MakePath(cue.Def("#Lineage")))
	text := l.cue()
	var v cue.Value
	switch form {
	case "plain":
		v = ctx.CompileString(text, cue.Filename("lineage.cue"))
	case "lindef&v":
		v = lindef.Unify(ctx.CompileString(text, cue.Filename("lineage.cue")))
	case "v&lindef":
		v = ctx.CompileString(text, cue.Filename("lineage.cue")).Unify(lindef)
	case "#Lineage&expr":
		v = ctx.CompileString("#Lineage & {\n"+text+"\n}", cue.Filename("lineage.cue"), cue.Scope(rt.Underlying()))
	case "split":
		n := l
		v = ctx.CompileString("{name: "+fmt.Sprintf("%q", l.Name)+"} & {\n"+n.cue()+"\n}", cue.Filename("lineage.cue"))
	case "#Lineage&split":
		v = ctx.CompileString("#Lineage & {name: "+fmt.Sprintf("%q", l.Name)+"} & {\n"+text+"\n}", cue.Filename("lineage.cue"), cue.Scope(rt.Underlying()))
	case "embedded":
		v = ctx.CompileString("#Lineage\n"+text, cue.Filename("lineage.cue"), cue.Scope(rt.Underlying()))
	case "#Lineage&three first", "#Lineage&three last", "#Lineage twice", "#Lineage twice&three", "three":
		name := fmt.Sprintf("{name: %q}", l.Name)
		full := map[string]string{
			"#Lineage&three first": "#Lineage & {\n" + text + "\n} & {name: string} & " + name,
			"#Lineage&three last":  "{name: string} & " + name + " & #Lineage & {\n" + text + "\n}",
			"#Lineage twice":       "#Lineage & {\n" + text + "\n} & #Lineage",
			"#Lineage twice&three": "#Lineage & {name: string} & #Lineage & " + name + " & {\n" + text + "\n}",
			"three":                "{name: string} & " + name + " & {\n" + text + "\n}",
		}[form]
		v = ctx.CompileString(full, cue.Filename("lineage.cue"), cue.Scope(rt.Underlying()))
	default:
		panic(form)
	}
	return thema.BindLineage(v, rt, opts...)
}

func genC01(g *Gen) {
	tab := compatTable(seqBodies)
	one := func(form string, vs [][2]int, bodies []int, skip bool) {
		key := form
		if skip {
			key += " skipbuggy"
		}
		for i := range vs {
			key += fmt.Sprintf(" %s:%s", vstr(vs[i]), seqBodies[bodies[i]].Name)
		}
		g.Case(key, func(t *T) {
			rt := t.RT()
			want := vs[0] == [2]int{0, 0}
			why := "first version"
			for i := 1; want && i < len(vs); i++ {
				p, c := vs[i-1], vs[i]
				minor := c == [2]int{p[0], p[1] + 1}
				major := c == [2]int{p[0] + 1, 0}
				if !minor && !major {
					want, why = false, "sequence"
				} else if !skip && minor != tab[bodies[i-1]][bodies[i]] {
					want, why = false, "numbering"
				}
			}
			if want {
				why = "ok"
			}
			l := LinSpec{Name: "lin", NoLens: true}
			for i := range vs {
				l.Schemas = append(l.Schemas, SchSpec{V: vs[i], Body: seqBodies[bodies[i]].T.cue()})
			}
			var opts []thema.BindOption
			if skip {
				opts = append(opts, thema.SkipBuggyChecks())
			}
			lin, err := bindForm(rt, form, l, opts...)
			t.Step()
			t.State()
			t.Checked(why, len(vs) > 1)
			t.Sample("%s => want accepted=%v (%s)", key, want, why)
			if want != (err == nil) {
				t.Fatal("verdict", "expected accepted=%v (%s), got err=%v\n%s", want, why, err, l.cue())
			}
			if err != nil {
				if lin != nil {
					t.Fail("lin-on-error", "non-nil lineage with error")
				}
				if !errors.Is(err, terrors.ErrInvalidLineage) && !errors.Is(err, terrors.ErrInvalidSchemasOrder) {
					t.Fail("errclass", "rejected with an unrelated error: %v", err)
				}
				return
			}
			if lin.Name() != "lin" {
				t.Fail("name", "lineage reports name %q", lin.Name())
			}
			all := lin.All()
			if len(all) != len(vs) {
				t.Fatal("len", "%d schemas bound, %d declared", len(all), len(vs))
			}
			for i, s := range all {
				if s.Version() != sv(vs[i]) {
					t.Fail("version", "schema %d has version %s, declared %s", i, s.Version(), vstr(vs[i]))
				}
				// the schema bound at this version is the one declared for it
				for j, b := range seqBodies {
					d := obj("a", "x")
					switch b.Name {
					case "AB":
						d["b"] = Num("1")
					case "ABC":
						d["b"], d["c"] = Num("1"), true
					case "Z":
						d = obj("z", Num("1"))
					}
					_, verr := s.Validate(mkdata(rt, d))
					t.Step()
					_, w := accept(seqBodies[bodies[i]].T, d)
					if w != (verr == nil) {
						t.Fail("content", "schema %s does not behave as declared on body %d: %v", s.Version(), j, verr)
					}
				}
			}
		})
	}
	// (1) every sequence of arbitrary versions, with every choice of bodies
	var vset [][2]int
	for a := 0; a <= 2; a++ {
		for b := 0; b <= 2; b++ {
			vset = append(vset, [2]int{a, b})
		}
	}
	for n := 1; n <= 3; n++ {
		forSeq(n, len(vset), func(vi []int) {
			var vs [][2]int
			for _, i := range vi {
				vs = append(vs, vset[i])
			}
			forSeq(n, len(seqBodies), func(bi []int) {
				if n == 3 && !g.Thorough() {
					// quick: bodies that agree with the declared step, and one that does not, per position
					for i := 1; i < n; i++ {
						if bi[0] > 1 {
							return
						}
					}
					if bi[1] == 2 && bi[2] == 2 {
						return
					}
				}
				one("plain", vs, bi, false)
			})
		})
	}
	// (2) every contiguous numbering of up to 4 (5) schemas, all bodies, all forms
	maxn := 4
	if g.Thorough() {
		maxn = 5
	}
	for n := 4; n <= maxn; n++ {
		forSeq(n-1, 2, func(steps []int) {
			vs := [][2]int{{0, 0}}
			for _, s := range steps {
				p := vs[len(vs)-1]
				if s == 0 {
					vs = append(vs, [2]int{p[0], p[1] + 1})
				} else {
					vs = append(vs, [2]int{p[0] + 1, 0})
				}
			}
			forSeq(n, len(seqBodies), func(bi []int) { one("plain", vs, bi, false) })
		})
	}
	for _, form := range forms[1:] {
		for n := 1; n <= 3; n++ {
			forSeq(n-1, 2, func(steps []int) {
				vs := [][2]int{{0, 0}}
				for _, s := range steps {
					p := vs[len(vs)-1]
					if s == 0 {
						vs = append(vs, [2]int{p[0], p[1] + 1})
					} else {
						vs = append(vs, [2]int{p[0] + 1, 0})
					}
				}
				forSeq(n, len(seqBodies), func(bi []int) { one(form, vs, bi, false) })
			})
		}
	}
	// (3) with the compatibility analysis switched off, order is still enforced
	for n := 1; n <= 3; n++ {
		forSeq(n, len(vset), func(vi []int) {
			var vs [][2]int
			for _, i := range vi {
				vs = append(vs, vset[i])
			}
			bi := []int{0, 1, 3}[:n]
			one("plain", vs, bi, true)
		})
	}
	// (4) long lineages: one defect at every position of a long chain
	for _, n := range []int{6, 12} {
		for bad := -1; bad < n; bad++ {
			for _, kind := range []string{"gap", "dup", "back", "majorgap"} {
				if bad <= 0 && kind != "gap" {
					continue
				}
				n, bad, kind := n, bad, kind
				g.Case(fmt.Sprintf("chain n=%d bad=%d %s", n, bad, kind), func(t *T) {
					l := LinSpec{Name: "lin", NoLens: true}
					v := [2]int{0, 0}
					body := "a?: int"
					for i := 0; i < n; i++ {
						vv := v
						if i == bad {
							switch kind {
							case "gap":
								vv[1]++
							case "dup":
								vv[1]--
							case "back":
								vv[1] = 0
							case "majorgap":
								vv = [2]int{v[0] + 2, 0}
							}
						}
						l.Schemas = append(l.Schemas, SchSpec{V: vv, Body: "{" + body + "}"})
						body += fmt.Sprintf(", f%d?: int", i)
						v = [2]int{vv[0], vv[1] + 1}
					}
					_, err := bindText(t.RT(), l.cue())
					t.Step()
					t.State()
					t.Checked(fmt.Sprintf("chain bad=%v", bad >= 0), true)
					if (bad >= 0) != (err != nil) {
						t.Fail("verdict", "err=%v\n%s", err, l.cue())
					}
				})
			}
		}
	}
	// (5) malformed lineages
	okS := `schemas: [{version: [0, 0], schema: {a: string}}]`
	for _, m := range []struct {
		name, text string
		ok         bool
	}{
		{"good", `name: "x"` + "\n" + okS, true},
		{"noname", okS, false},
		{"nonconcrete-name", "name: string\n" + okS, false},
		{"int-name", "name: 4\n" + okS, false},
		{"null-name", "name: null\n" + okS, false},
		{"noschemas", `name: "x"`, false},
		{"emptyschemas", `name: "x", schemas: []`, false},
		{"schemas-struct", `name: "x", schemas: {a: 1}`, false},
		{"schemas-string", `name: "x", schemas: "s"`, false},
		{"schemas-open", `name: "x", schemas: [...]`, false},
		{"versionless-first", `name: "x", schemas: [{schema: {a: string}}]`, true},
		{"versionless-second", `name: "x", schemas: [{version: [0,0], schema: {a: string}}, {schema: {a: string, b?: int}}]`, false},
		{"versionless-second-breaking", `name: "x", schemas: [{version: [0,0], schema: {a: string}}, {schema: {z: int}}]`, false},
		{"neg-version", `name: "x", schemas: [{version: [0,-1], schema: {a: string}}]`, false},
		{"str-version", `name: "x", schemas: [{version: "0.0", schema: {a: string}}]`, false},
		{"short-version", `name: "x", schemas: [{version: [0], schema: {a: string}}]`, false},
		{"long-version", `name: "x", schemas: [{version: [0,0,0], schema: {a: string}}]`, false},
		{"float-version", `name: "x", schemas: [{version: [0.0,0], schema: {a: string}}]`, false},
		{"abstract-version", `name: "x", schemas: [{version: [0,0], schema: {a: string}}, {version: [0,int], schema: {a: string, b?: int}}]`, false},
		{"abstract-major", `name: "x", schemas: [{version: [0,0], schema: {a: string}}, {version: [uint64,1], schema: {a: string, b?: int}}]`, false},
		{"bottom-schema", `name: "x", schemas: [{version: [0,0], schema: {a: string & int}}]`, false},
		{"bottom-second", `name: "x", schemas: [{version: [0,0], schema: {a: string}}, {version: [0,1], schema: {a: string, b: 1 & 2}}]`, false},
		{"unknown-field", `name: "x", foo: 1` + "\n" + okS, false},
		{"unknown-schemadef-field", `name: "x", schemas: [{version: [0,0], schema: {a: string}, foo: 1}]`, false},
		{"bad-example", `name: "x", schemas: [{version: [0,0], schema: {a: string}, examples: {e: {a: 1}}}]`, false},
		{"excess-example", `name: "x", schemas: [{version: [0,0], schema: {a: string}, examples: {e: {a: "s", q: 1}}}]`, false},
		{"good-example", `name: "x", schemas: [{version: [0,0], schema: {a: string}, examples: {e: {a: "s"}}}]`, true},
		{"join-ok", `name: "x", joinSchema: {a: string}, schemas: [{version: [0,0], schema: {a: "k" | "l"}}]`, true},
		{"join-conflict", `name: "x", joinSchema: {a: string}, schemas: [{version: [0,0], schema: {a: int}}]`, false},
		{"join-conflict-second", `name: "x", joinSchema: {a?: string}, schemas: [{version: [0,0], schema: {b: int}}, {version: [1,0], schema: {a: int}}]`, false},
		{"not-a-struct", `4`, false},
		{"list", `[1]`, false},
		{"empty", `{}`, false},
		{"lens-bad-version", `name: "x"` + "\n" + okS + "\n" + `lenses: [{from: [0], to: [0,0], input: _, result: {}}]`, false},
		{"lens-abstract-version", `name: "x"` + "\n" + okS + "\n" + `lenses: [{from: [0,1], to: [0,uint64], input: _, result: {}}]`, false},
		{"lens-noresult-ok", `name: "x"` + "\n" + okS + "\n" + `lenses: []`, true},
		{"lenses-not-list", `name: "x"` + "\n" + okS + "\n" + `lenses: {}`, false},
	} {
		m := m
		g.Case("malformed "+m.name, func(t *T) {
			lin, err := bindText2(t.RT(), m.text)
			t.Step()
			t.State()
			t.Checked("malformed ok="+fmt.Sprint(m.ok), true)
			if m.ok != (err == nil) {
				t.Fail("verdict", "expected accepted=%v, got err=%v\n%s", m.ok, err, m.text)
			}
			if err != nil && lin != nil {
				t.Fail("lin-on-error", "non-nil lineage with error")
			}
		})
	}
	g.Case("nonexistent value", func(t *T) {
		rt := t.RT()
		v := rt.Context().CompileString("{}").LookupPath(cue.ParsePath("nope"))
		_, err := thema.BindLineage(v, rt)
		t.Step()
		t.State()
		t.Checked("nonexistent", true)
		if err == nil {
			t.Fail("verdict", "nonexistent value bound")
		}
	})
	// (5b) examples: every assignment of example names to schemas
	exNames := []string{"simple", "with-dash", "a b", "Upper", "0", "é"}
	for n := 1; n <= 3; n++ {
		forSeq(n, 1<<len(exNames), func(ms []int) {
			for i, m := range ms {
				if n > 1 && (m%7) != (i*3+ms[0])%7 {
					return
				}
			}
			g.Case(fmt.Sprintf("examples %v", ms), func(t *T) {
				rt := t.RT()
				l := LinSpec{Name: "lin", NoLens: true}
				for i, m := range ms {
					ex := "{"
					for k, nm := range exNames {
						if m&(1<<k) != 0 {
							ex += fmt.Sprintf("%q: {a: %q}, ", nm, fmt.Sprint(nm, i))
						}
					}
					l.Schemas = append(l.Schemas, SchSpec{V: [2]int{0, i}, Body: seqBodies[i].T.cue(), Examples: ex + "}"})
				}
				lin, err := bindText(rt, l.cue())
				t.Step()
				t.State()
				if err != nil {
					t.Fatal("bind", "%s\n%s", err, l.cue())
				}
				for i, m := range ms {
					got := lin.All()[i].Examples()
					t.Step()
					want := map[string]string{}
					for k, nm := range exNames {
						if m&(1<<k) != 0 {
							want[nm] = lit(obj("a", fmt.Sprint(nm, i)))
						}
					}
					t.Checked(fmt.Sprintf("examples %d", len(want)), len(want) > 0)
					if len(got) != len(want) {
						t.Fail("count", "schema %d: %d examples, declared %d", i, len(got), len(want))
					}
					for nm, w := range want {
						inst := got[nm]
						if inst == nil {
							t.Fail("missing", "schema %d: no example %q", i, nm)
						} else if valueOf(inst.Underlying()) != w || inst.Schema().Version() != thema.SV(0, uint(i)) {
							t.Fail("content", "schema %d example %q: %s@%s, want %s", i, nm, valueOf(inst.Underlying()), inst.Schema().Version(), w)
						}
					}
				}
			})
		})
	}
	// (6) order of explicit lenses: every permutation of the lens list
	for _, shape := range [][]int{{2}, {1, 1}, {3}, {2, 1}, {1, 1, 1}, {1, 2}} {
		vs := versionsOf(shape)
		pairs := lensPairs(vs)
		if len(pairs) > 4 {
			pairs = pairs[:4]
		}
		perms(len(pairs), func(pm []int) {
			key := "lensorder " + shapeKey(shape) + " " + fmt.Sprint(pm)
			sorted := true
			for i := range pm {
				sorted = sorted && pm[i] == i
			}
			g.Case(key, func(t *T) {
				l := LinSpec{Name: "lin"}
				for i, v := range vs {
					l.Schemas = append(l.Schemas, SchSpec{V: v, Body: seqSchemaBody(vs, i)})
				}
				for _, k := range pm {
					l.Lenses = append(l.Lenses, LensSpec{From: pairs[k][0], To: pairs[k][1], Result: "{}"})
				}
				_, err := bindText(t.RT(), l.cue())
				t.Step()
				t.State()
				t.Checked(fmt.Sprintf("lensorder sorted=%v", sorted), true)
				if sorted != (err == nil) {
					t.Fail("verdict", "lenses sorted=%v, err=%v\n%s", sorted, err, l.cue())
				} else if err != nil && !errors.Is(err, terrors.ErrInvalidLensesOrder) {
					t.Fail("errclass", "not ErrInvalidLensesOrder: %v", err)
				}
			})
		})
	}
}

// bindText2 is bindText without the assertion that the text has no CUE errors.
func bindText2(rt *thema.Runtime, text string, opts ...thema.BindOption) (thema.Lineage, error) {
	return thema.BindLineage(rt.Context().CompileString(text, cue.Filename("lineage.cue")), rt, opts...)
}

func perms(n int, f func([]int)) {
	used := make([]bool, n)
	cur := []int{}
	var rec func()
	rec = func() {
		if len(cur) == n {
			f(append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// seqSchemaBody is the canonical body of the i-th schema of a lineage with
// the given versions: a required field per major, an optional field per minor.
func seqSchemaBody(vs [][2]int, i int) string {
	v := vs[i]
	b := fmt.Sprintf("m%d: string", v[0])
	for k := 1; k <= v[1]; k++ {
		b += fmt.Sprintf(", o%dx%d?: int", v[0], k)
	}
	return "{" + b + "}"
}
