package main

import (
	"fmt"

	"github.com/grafana/thema"
)

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "a case is one schema of the C03 alphabet (plus list/struct defaults and deeper nesting); every valid probe combination is hydrated and dehydrated and compared with the reference; non-trivial: hydration or dehydration changes the data",
		Gen:  genC11,
	})
}

// dehydrate is the reference: required fields holding their declared default
// are dropped; optional fields, disjunctions and maps are left alone.
func dehydrate(t Ty, v any) any {
	switch x := t.(type) {
	case Def:
		return dehydrate(x.Base, v)
	case List:
		l, ok := v.([]any)
		if !ok {
			return v
		}
		out := []any{}
		for _, e := range l {
			et := x.E
			if or, ok := et.(Or); ok {
				// the branch of a discriminated union that the element belongs to
				for _, b := range or.T {
					if _, ok := accept(b, e); ok {
						et = b
						break
					}
				}
			}
			r := dehydrate(et, e)
			if _, ok := accept(x.E, r); !ok {
				r = e
			}
			out = append(out, r)
		}
		return out
	case Struct:
		m, ok := v.(map[string]any)
		if !ok {
			return v
		}
		out := map[string]any{}
		for k, e := range m {
			var f *Field
			for i := range x.F {
				if x.F[i].Name == k {
					f = &x.F[i]
				}
			}
			if f == nil {
				out[k] = e
				continue
			}
			if d, ok := f.T.(Def); ok && !f.Opt && lit(d.D) == lit(e) {
				continue
			}
			out[k] = dehydrate(f.T, e)
		}
		return out
	}
	return v
}

// instancesOf enumerates instances of a type, small but with every structural
// choice: fields absent, at their default and otherwise; lists of zero to two
// elements; every branch.
func instancesOf(t Ty) []any {
	switch x := t.(type) {
	case Scalar:
		switch x.K {
		case "int":
			return []any{Num("1"), Num("7")}
		case "bool":
			return []any{true, false}
		case "float", "number":
			return []any{Num("1.5")}
		case "null":
			return []any{nil}
		}
		return []any{"", "s"}
	case Range:
		return []any{Num(fmt.Sprint(x.Lo)), Num(fmt.Sprint(x.Hi))}
	case Pattern:
		return []any{x.Prefix + "q"}
	case Ref:
		return instancesOf(x.T)
	case Pred:
		var out []any
		for _, v := range probeValues {
			if v != absent && x.F(v) {
				out = append(out, v)
			}
		}
		if len(out) > 3 {
			out = out[:3]
		}
		return out
	case Const:
		return []any{x.V}
	case Enum:
		return x.V
	case Def:
		out := []any{x.D}
		for _, v := range instancesOf(x.Base) {
			if lit(v) != lit(x.D) {
				out = append(out, v)
			}
		}
		return out
	case Or:
		var out []any
		for _, b := range x.T {
			for _, v := range instancesOf(b) {
				if _, ok := accept(x, v); ok {
					out = append(out, v)
				}
			}
		}
		return out
	case List:
		out := []any{[]any{}}
		es := instancesOf(x.E)
		for _, a := range es {
			out = append(out, []any{a})
		}
		for i, a := range es {
			for j, b := range es {
				// all pairs of few elements, of many only pairs of neighbours and with the first
				if len(es) <= 13 || i == 0 || j == 0 || i-j == 1 || j-i == 1 || i == j {
					out = append(out, []any{a, b})
				}
			}
		}
		return out
	case Map:
		out := []any{obj()}
		for _, a := range instancesOf(x.E) {
			out = append(out, obj("p", a), obj("p", a, "q", a))
		}
		return out
	case Tuple:
		out := []any{[]any{}}
		for _, e := range x.E {
			var next []any
			for _, o := range out {
				for _, a := range instancesOf(e) {
					next = append(next, append(append([]any{}, o.([]any)...), a))
				}
			}
			out = next
		}
		return out
	case Struct:
		out := []any{obj()}
		for _, f := range x.F {
			var next []any
			for _, o := range out {
				m := o.(map[string]any)
				if _, ok := complete(f.T); f.Opt || ok {
					next = append(next, m)
				}
				for _, a := range instancesOf(f.T) {
					c := map[string]any{f.Name: a}
					for k, v := range m {
						c[k] = v
					}
					next = append(next, c)
				}
			}
			out = next
		}
		return out
	}
	panic(fmt.Sprintf("instancesOf %T", t))
}

// deepSchemas composes wrappers over leaves with and without defaults.
func deepSchemas(thorough bool) []namedTy {
	d1 := Def{Num("1"), tInt}
	leaves := []namedTy{
		{"int=1", d1}, {"string=d", Def{"d", tString}}, {"bool=true", Def{true, tBool}}, {"enum=b", Def{"b", Enum{[]any{"a", "b"}}}}, {"string", tString},
		{"union", Or{[]Ty{st(req("k", Const{"p"}), req("x", d1)), st(req("k", Const{"q"}), req("x", Def{Num("2"), tInt}))}}},
		{"union2", Or{[]Ty{st(req("k", Const{"p"}), req("x", d1), opt("y", tString)), st(req("k", Const{"q"}), opt("x", tInt))}}},
	}
	wraps := []struct {
		n string
		w func(t Ty) Ty
	}{
		{"s", func(t Ty) Ty { return st(req("f", t)) }},
		{"o", func(t Ty) Ty { return st(opt("f", t)) }},
		{"l", func(t Ty) Ty { return List{t} }},
		{"m", func(t Ty) Ty { return Map{t} }},
		{"sd", func(t Ty) Ty { return st(req("f", t), req("g", Def{"G", tString})) }},
	}
	var out []namedTy
	cur := leaves
	depth := 2
	if thorough {
		depth = 3
	}
	for d := 0; d <= depth; d++ {
		for _, c := range cur {
			out = append(out, namedTy{"deep a:" + c.Name, st(req("a", c.T))}, namedTy{"deep a?:" + c.Name, st(opt("a", c.T))})
		}
		var next []namedTy
		for _, c := range cur {
			for _, w := range wraps {
				if _, ok := c.T.(Or); ok && w.n != "l" {
					continue
				}
				next = append(next, namedTy{w.n + "(" + c.Name + ")", w.w(c.T)})
			}
		}
		cur = next
	}
	return out
}

func genC11(g *Gen) {
	genC11Deep(g)
	list := c03Schemas(g.Thorough())
	add := func(n string, t Ty) { list = append(list, namedTy{n, t}) }
	xd := st(req("x", Def{Num("1"), tInt}))
	add("deflist", st(req("a", Def{arr("a"), List{tString}})))
	add("defemptylist", st(req("a", Def{arr(), List{tString}})))
	add("deflist?", st(opt("a", Def{arr("a"), List{tString}})))
	add("3deep", st(req("a", st(req("b", st(req("x", Def{Num("1"), tInt}), opt("w", Def{Num("1"), tInt})))))))
	add("list of list", st(req("a", List{List{xd}})))
	add("list in struct", st(req("a", st(req("b", List{xd})))))
	add("mixed", st(req("a", xd), req("b", Def{"zz", tString}), opt("c", Def{Num("4"), tInt}), req("d", List{xd})))
	add("list of disc", st(req("a", List{Or{[]Ty{st(req("k", Const{"p"}), req("x", Def{Num("1"), tInt})), st(req("k", Const{"q"}), opt("y", tString))}}})))
	probes2 := []any{absent, nil, true, "", "a", "zz", Num("1"), Num("4"), Num("1.5"), arr(), arr("a"), obj(), obj("x", Num("1"))}
	deep := append(append([]any{}, probeValues...),
		obj("b", obj()), obj("b", obj("x", Num("1"))), obj("b", obj("x", Num("1"), "w", Num("1"))), obj("b", obj("x", Num("2"), "w", Num("3"))),
		arr(arr(obj("x", Num("1")), obj())), arr(arr(), arr(obj("x", Num("5")))), obj("b", arr(obj(), obj("x", Num("1")))),
		arr(obj("k", "p")), arr(obj("k", "p", "x", Num("1")), obj("k", "q")), arr(obj("k", "q", "y", "s")))
	for _, s := range list {
		s := s
		g.Case(s.Name, func(t *T) {
			rt := t.RT()
			lin := mustBind(t, LinSpec{Name: "lin", NoLens: true, Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.T.cue()}}})
			sch := lin.First()
			stt := s.T.(Struct)
			probes := deep
			if len(stt.F) > 1 {
				probes = probes2
			}
			seen := map[string]bool{}
			dataFor(stt, probes, func(d any) {
				js := lit(d)
				if seen[js] {
					return
				}
				seen[js] = true
				c11Check(t, rt, sch, s, d)
			})
			t.Sample("schema %s", s.T.cue())
		})
	}
	// joinSchema and several schemas: each instance uses its own schema's defaults
	g.Case("join and versions", func(t *T) {
		spec := LinSpec{Name: "lin", NoLens: true, Join: `{j: *"J" | string}`, Schemas: []SchSpec{
			{V: [2]int{0, 0}, Body: `{a: *1 | int}`}, {V: [2]int{1, 0}, Body: `{a: *2 | int, b: string}`}}}
		lin := mustBind(t, spec)
		for i, c := range []struct{ in, h, d map[string]any }{
			{obj(), obj("a", Num("1"), "j", "J"), obj()},
			{obj("b", "x", "a", Num("1")), obj("a", Num("1"), "b", "x", "j", "J"), obj("b", "x", "a", Num("1"))},
			{obj("b", "x", "a", Num("2"), "j", "J"), obj("a", Num("2"), "b", "x", "j", "J"), obj("b", "x")},
		} {
			k := i
			if k > 1 {
				k = 1
			}
			inst := mustValidate(t, lin.All()[k], c.in)
			t.State(fmt.Sprint(i))
			t.Checked("join", true)
			if got := valueOf(inst.Hydrate().Underlying()); got != lit(c.h) {
				t.Fail(fmt.Sprintf("hydrate %d", i), "%s, expected %s", got, lit(c.h))
			}
			if got := valueOf(inst.Dehydrate().Underlying()); got != lit(c.d) {
				t.Fail(fmt.Sprintf("dehydrate %d", i), "%s, expected %s", got, lit(c.d))
			}
		}
	})
}

func c11Check(t *T, rt *thema.Runtime, sch thema.Schema, s namedTy, d any) {
	js := lit(d)
	full, ok := accept(s.T, d)
	if !ok {
		return
	}
	inst, err := sch.Validate(jsonData(rt, js))
	t.Step()
	if err != nil {
		t.Fail("validate "+js, "%s", err)
		return
	}
	h := inst.Hydrate()
	t.Step()
	dh := inst.Dehydrate()
	t.Step()
	t.State(js)
	wantD := dehydrate(s.T, d)
	t.Checked(fmt.Sprintf("hydrated=%v dehydrated=%v", lit(full) != js, lit(wantD) != js), lit(full) != js || lit(wantD) != js)
	cmp := func(what string, got *thema.Instance, want any) {
		if got == nil {
			t.Fail(what+" "+js, "nil")
			return
		}
		if got.Schema() != sch {
			t.Fail(what+" "+js, "other schema")
		}
		if v := valueOf(got.Underlying()); v != lit(want) {
			t.Fail(what+" "+js, "schema %s: %s of %s is %s, expected %s", s.T.cue(), what, js, v, lit(want))
		} else if _, err := sch.Validate(got.Underlying()); err != nil {
			t.Fail(what+" valid "+js, "schema %s: %s of %s is not valid: %s", s.T.cue(), what, js, err)
		}
	}
	cmp("hydrate", h, full)
	cmp("dehydrate", dh, wantD)
	if lit(full) != js {
		cmp("hydrate twice", h.Hydrate(), full)
		cmp("dehydrate hydrated", h.Dehydrate(), dehydrate(s.T, full))
	}
	if lit(wantD) != js {
		cmp("dehydrate twice", dh.Dehydrate(), wantD)
		cmp("rehydrate", dh.Hydrate(), full)
	}
	if got := valueOf(inst.Underlying()); got != js || inst.Schema() != sch {
		t.Fail("mutated "+js, "input instance changed to %s", got)
	}
}

func genC11Deep(g *Gen) {
	for _, s := range deepSchemas(g.Thorough()) {
		s := s
		g.Case(s.Name, func(t *T) {
			lin := mustBind(t, LinSpec{Name: "lin", NoLens: true, Schemas: []SchSpec{{V: [2]int{0, 0}, Body: s.T.cue()}}})
			all := instancesOf(s.T)
			for _, d := range all {
				c11Check(t, t.RT(), lin.First(), s, d)
			}
			t.Sample("schema %s: %d instances", s.T.cue(), len(all))
		})
	}
}
