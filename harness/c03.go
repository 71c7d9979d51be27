package main

import (
	"fmt"
	"strings"

	"github.com/cockroachdb/errors"
	terrors "github.com/grafana/thema/errors"
)

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "a case is one schema (1..2 fields over the leaf-type alphabet, required/optional, awkward names, nested); " +
			"every combination of probe values (incl. absence and an undeclared field) is validated; non-trivial: at least one field present",
		Gen: genC03,
	})
}

// schemas of C03
func c03Schemas(thorough bool) []namedTy {
	var out []namedTy
	add := func(n string, t Ty) { out = append(out, namedTy{n, t}) }
	for _, l := range leafTypes {
		add("a:"+l.Name, st(req("a", l.T)))
		add("a?:"+l.Name, st(opt("a", l.T)))
	}
	for _, n := range []string{"a-b", "schemas", "version", "schema", "name", "x.y", "é", "1", "joinSchema", "", "Sp ace"} {
		add(fmt.Sprintf("%q:string", n), st(req(n, tString)))
		add(fmt.Sprintf("%q?:1..3", n), st(opt(n, Range{1, 3, "int & >=1 & <=3"})))
		add(fmt.Sprintf("%q:{%q:int}", n, n), st(req(n, st(req(n, tInt)))))
	}
	for _, l := range leafTypes {
		add("a:{b:"+l.Name+"}", st(req("a", st(req("b", l.T)))))
		add("a?:{b?:"+l.Name+"}", st(opt("a", st(opt("b", l.T)))))
		add("a:[...{b:"+l.Name+"}]", st(req("a", List{st(req("b", l.T))})))
	}
	add("open", Struct{F: []Field{req("a", tInt)}, Open: true})
	var two []int
	for i := range leafTypes {
		two = append(two, i)
	}
	for _, i := range two {
		for _, j := range two {
			for o := 0; o < 4; o++ {
				l, m := leafTypes[i], leafTypes[j]
				add(fmt.Sprintf("a:%s,b:%s/%d", l.Name, m.Name, o), st(
					Field{Name: "a", Opt: o&1 != 0, T: l.T}, Field{Name: "b", Opt: o&2 != 0, T: m.T}))
			}
		}
	}
	return out
}

// dataFor enumerates candidate data for a struct schema: all combinations of
// probe values for its fields, then the same with an undeclared field.
func dataFor(t Struct, probes []any, f func(v any)) {
	var rec func(i int, cur map[string]any)
	rec = func(i int, cur map[string]any) {
		if i == len(t.F) {
			c := map[string]any{}
			for k, v := range cur {
				c[k] = v
			}
			f(c)
			return
		}
		fl := t.F[i]
		if inner, ok := fl.T.(Struct); ok && len(inner.F) == 1 && i == 0 && len(t.F) == 1 {
			// explore the nested struct with the full probe set too
			for _, p := range probes {
				m := map[string]any{}
				if p != absent {
					m[inner.F[0].Name] = p
				}
				cur[fl.Name] = m
				rec(i+1, cur)
			}
			cur[fl.Name] = map[string]any{"undeclared": Num("1")}
			rec(i+1, cur)
			delete(cur, fl.Name)
		}
		if l, ok := fl.T.(List); ok && len(t.F) == 1 {
			if inner, ok := l.E.(Struct); ok && len(inner.F) == 1 {
				for _, p := range probes {
					m := map[string]any{}
					if p != absent {
						m[inner.F[0].Name] = p
					}
					cur[fl.Name] = []any{m}
					rec(i+1, cur)
				}
				delete(cur, fl.Name)
			}
		}
		for _, p := range probes {
			if p == absent {
				delete(cur, fl.Name)
			} else {
				cur[fl.Name] = p
			}
			rec(i+1, cur)
		}
		delete(cur, fl.Name)
	}
	rec(0, map[string]any{})
	// undeclared field next to every single choice of the first field
	for _, extra := range []any{Num("1"), nil, "s"} {
		for _, p := range probes {
			m := map[string]any{"undeclared": extra}
			ok := true
			for i, fl := range t.F {
				if i == 0 {
					if p != absent {
						m[fl.Name] = p
					}
				} else if !fl.Opt {
					ok = false
				}
			}
			if ok {
				f(m)
			}
		}
	}
}

func genC03(g *Gen) {
	probes2 := []any{absent, nil, true, "", "a", "zz", Num("1"), Num("4"), Num("1.5"), arr(), arr("a"), obj(), obj("x", Num("1"))}
	for _, s := range c03Schemas(g.Thorough()) {
		s := s
		g.Case(s.Name, func(t *T) {
			rt := t.RT()
			stt := s.T.(Struct)
			lin, err := bindText(rt, LinSpec{Name: "lin", Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.T.cue()}}}.cue())
			t.Step()
			if err != nil {
				t.Fatal("bind", "valid single-schema lineage rejected: %s\n%s", err, s.T.cue())
			}
			sch := lin.First()
			check := func(js string, want bool, data any) {
				v := jsonData(rt, js)
				before := valueOf(v)
				inst, err := sch.Validate(v)
				t.Step()
				t.State(js)
				cls := "reject"
				if want {
					cls = "accept"
				}
				t.Checked(cls, js != "{}")
				if want != (err == nil) {
					t.Fail("member "+js, "schema %s data %s: expected valid=%v, got err=%v", s.T.cue(), js, want, err)
					return
				}
				if err != nil {
					if inst != nil {
						t.Fail("inst-on-error "+js, "Validate returned both an instance and an error")
					}
					if !errors.Is(err, terrors.ErrInvalidData) {
						t.Fail("errclass "+js, "schema %s data %s: error is not ErrInvalidData: %T %v", s.T.cue(), js, err, err)
					}
					if strings.TrimSpace(err.Error()) == "" {
						t.Fail("nodetail "+js, "schema %s data %s: error carries no detail at all", s.T.cue(), js)
					}
					return
				}
				if inst == nil {
					t.Fail("nil-inst "+js, "Validate returned nil instance and nil error")
					return
				}
				if got := valueOf(inst.Underlying()); got != before {
					t.Fail("changed "+js, "instance data differs from input: %s vs %s", got, before)
				}
				if inst.Schema().Version() != sch.Version() {
					t.Fail("schema "+js, "instance reports schema %s", inst.Schema().Version())
				}
				if got := valueOf(v); got != before {
					t.Fail("mutated "+js, "input was mutated: %s -> %s", before, got)
				}
			}
			probes := probeValues
			if len(stt.F) > 1 {
				probes = probes2
			}
			seen := map[string]bool{}
			t.Sample("schema %s validated against every probe combination", s.T.cue())
			dataFor(stt, probes, func(d any) {
				js := lit(d)
				if seen[js] {
					return
				}
				seen[js] = true
				_, want := accept(s.T, d)
				check(js, want, d)
			})
			for _, top := range []any{nil, true, "a", Num("1"), arr(), arr(obj())} {
				check(lit(top), false, top)
			}
			// After all of these, the verdicts are the same (no history dependence):
			// revalidate a few.
			for _, js := range []string{"{}", "null"} {
				d, _ := canon([]byte(js))
				_, want := accept(s.T, d)
				check(js, want, d)
			}
			_ = strings.TrimSpace
		})
	}
}
