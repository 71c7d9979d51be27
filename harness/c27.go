package main

import (
	"fmt"
	"io/fs"
	"sort"
	"strings"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/exemplars"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Prop{
		ID: "C27",
		Rule: "a case is a datum of one exemplar's data alphabet, a way to get hold of the exemplar and a schema; it is validated, hydrated and translated to every schema, and all is compared with reference " +
			"functions written from the exemplar's description; non-trivial: the datum is valid",
		Gen: genC27,
	})
}

// exm is what one exemplar promises.
type exm struct {
	name string
	vers [][2]int
	// data are the values its data are made of: every combination of one value per
	// field (or none) is a datum.
	data []exField
	// valid gives the hydrated datum, or false where the schema does not accept it.
	valid func(v [2]int, d map[string]any) (map[string]any, bool)
	// tr gives the translated datum of a valid one, and the lacunas.
	tr      func(from, to [2]int, d map[string]any) (map[string]any, []string)
	factory func(rt *thema.Runtime, o ...thema.BindOption) (thema.Lineage, error)
}

type exField struct {
	name string
	vals []any
}

func exOnly(d map[string]any, names ...string) bool {
	for k := range d {
		ok := false
		for _, n := range names {
			ok = ok || n == k
		}
		if !ok {
			return false
		}
	}
	return true
}

func exStr(d map[string]any, k string, in ...string) bool {
	s, ok := d[k].(string)
	if !ok || len(in) == 0 {
		return ok
	}
	for _, x := range in {
		if x == s {
			return true
		}
	}
	return false
}

func exCopy(d map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range d {
		out[k] = v
	}
	return out
}

func exemplarSpecs() []exm {
	ver := func(a, b int) [2]int { return [2]int{a, b} }
	return []exm{
		{
			name: "single", vers: [][2]int{ver(0, 0)}, factory: exemplars.SingleLineage,
			data: []exField{{"astring", []any{"", "a", 1}}, {"anint", []any{0, -3, "0"}}, {"abool", []any{true, false, "true"}}, {"other", []any{1}}},
			valid: func(v [2]int, d map[string]any) (map[string]any, bool) {
				_, i := d["anint"].(int)
				_, b := d["abool"].(bool)
				return d, exOnly(d, "astring", "anint", "abool") && exStr(d, "astring") && i && b
			},
			tr: func(from, to [2]int, d map[string]any) (map[string]any, []string) { return d, nil },
		},
		{
			name: "rename", vers: [][2]int{ver(0, 0), ver(1, 0)}, factory: exemplars.RenameLineage,
			data: []exField{{"before", []any{"", "b", 1}}, {"after", []any{"", "a", 1}}, {"unchanged", []any{"", "u", 1}}, {"other", []any{1}}},
			valid: func(v [2]int, d map[string]any) (map[string]any, bool) {
				n := []string{"before", "after"}[v[0]]
				return d, exOnly(d, n, "unchanged") && exStr(d, n) && exStr(d, "unchanged")
			},
			tr: func(from, to [2]int, d map[string]any) (map[string]any, []string) {
				n := []string{"before", "after"}
				return map[string]any{n[to[0]]: d[n[from[0]]], "unchanged": d["unchanged"]}, nil
			},
		},
		{
			name: "narrowing", vers: [][2]int{ver(0, 0), ver(1, 0)}, factory: exemplars.NarrowingLineage,
			data: []exField{{"boolish", []any{"true", "false", true, false, "", "x", "True", "truefalse", 1, nil, []any{}}}, {"properbool", []any{true, false, "true", 1}}, {"other", []any{1}}},
			valid: func(v [2]int, d map[string]any) (map[string]any, bool) {
				if v[0] == 0 {
					_, b := d["boolish"].(bool)
					return d, exOnly(d, "boolish") && (exStr(d, "boolish") || b)
				}
				_, b := d["properbool"].(bool)
				return d, exOnly(d, "properbool") && b
			},
			tr: func(from, to [2]int, d map[string]any) (map[string]any, []string) {
				switch {
				case from == to:
					return d, nil
				case to[0] == 0:
					return map[string]any{"boolish": d["properbool"]}, nil
				}
				if b, ok := d["boolish"].(bool); ok {
					return map[string]any{"properbool": b}, nil
				}
				s := d["boolish"].(string)
				var lac []string
				if s != "true" && s != "false" {
					lac = []string{`boolish was a string but neither "true" nor "false"; fallback to treating as false/3/src boolish=` + s + `/dst properbool=false`}
				}
				return map[string]any{"properbool": s == "true"}, lac
			},
		},
		{
			name: "expand", vers: [][2]int{ver(0, 0), ver(0, 1), ver(0, 2), ver(0, 3)}, factory: exemplars.ExpandLineage,
			data: []exField{{"init", []any{"", "i", 1}}, {"optional", []any{0, -2, "0"}}, {"withDefault", []any{"foo", "bar", "baz", "qux", 1}}, {"other", []any{1}}},
			valid: func(v [2]int, d map[string]any) (map[string]any, bool) {
				names := []string{"init", "optional", "withDefault"}[:[]int{1, 2, 3, 3}[v[1]]]
				if !exOnly(d, names...) || !exStr(d, "init") {
					return d, false
				}
				if o, ok := d["optional"]; ok {
					if _, ok := o.(int); !ok {
						return d, false
					}
				}
				if _, ok := d["withDefault"]; ok {
					return d, exStr(d, "withDefault", []string{"foo", "bar", "baz"}[:v[1]]...)
				}
				return d, true
			},
			tr: func(from, to [2]int, d map[string]any) (map[string]any, []string) {
				out := exCopy(d)
				if to[1] < 3 && out["withDefault"] == "baz" {
					out["withDefault"] = "foo"
				}
				if to[1] < 2 {
					delete(out, "withDefault")
				}
				if to[1] < 1 {
					delete(out, "optional")
				}
				return out, nil
			},
		},
		{
			name: "defaultchange", vers: [][2]int{ver(0, 0), ver(1, 0)}, factory: exemplars.DefaultChangeLineage,
			data: []exField{{"aunion", []any{"foo", "bar", "baz", "qux", "", 1}}, {"other", []any{1}}},
			valid: func(v [2]int, d map[string]any) (map[string]any, bool) {
				if len(d) == 0 {
					return map[string]any{"aunion": []string{"foo", "bar"}[v[0]]}, true
				}
				return d, exOnly(d, "aunion") && exStr(d, "aunion", "foo", "bar", "baz")
			},
			tr: func(from, to [2]int, d map[string]any) (map[string]any, []string) {
				df := []string{"foo", "bar"}
				if from == to || d["aunion"] != df[from[0]] {
					return d, nil
				}
				s, r := df[from[0]], df[to[0]]
				return map[string]any{"aunion": r}, []string{fmt.Sprintf("aunion was the source default, %q, and was changed to the target default, %q/4/src aunion=%s/dst aunion=%s", s, r, s, r)}
			},
		},
		{
			name: "disjunct", vers: [][2]int{ver(0, 0), ver(0, 1)},
			data: []exField{{"rootfield", exBranches()}, {"other", []any{1}}},
			valid: func(v [2]int, d map[string]any) (map[string]any, bool) {
				r, ok := d["rootfield"].(map[string]any)
				if !ok || !exOnly(d, "rootfield") {
					return d, false
				}
				// A constant is filled in where the rest tells which branch it is.
				if _, ok := r["branch"]; !ok {
					for i, n := range []string{"branchone", "branchtwo", "branchthree"} {
						if _, ok := r[n]; ok {
							r = exCopy(r)
							r["branch"] = i + 1
							d = map[string]any{"rootfield": r}
							break
						}
					}
				}
				switch r["branch"] {
				case 1:
					return d, exOnly(r, "branch", "branchone") && exStr(r, "branchone")
				case 2:
					return d, exOnly(r, "branch", "branchtwo") && exStr(r, "branchtwo")
				case 3:
					in, ok := r["branchthree"].(map[string]any)
					if v[1] == 0 || !ok || !exOnly(r, "branch", "branchthree") || !exOnly(in, "branchthreeinner") {
						return d, false
					}
					switch in["branchthreeinner"].(type) {
					case int, string:
						return d, true
					}
				}
				return d, false
			},
			tr: func(from, to [2]int, d map[string]any) (map[string]any, []string) {
				if to[1] == 0 && d["rootfield"].(map[string]any)["branch"] == 3 {
					return map[string]any{"rootfield": map[string]any{"branch": 1, "branchone": "wasthree"}}, nil
				}
				return d, nil
			},
		},
	}
}

func exBranches() []any {
	var out []any
	for _, b := range []any{nil, 1, 2, 3, 4, "1"} {
		for _, one := range []any{nil, "a", "wasthree", 1} {
			for _, two := range []any{nil, "b", 2} {
				for _, three := range []any{nil, map[string]any{}, map[string]any{"branchthreeinner": 7}, map[string]any{"branchthreeinner": "c"}, map[string]any{"branchthreeinner": true},
					map[string]any{"branchthreeinner": 7, "x": 1}, "c"} {
					m := map[string]any{}
					for k, v := range map[string]any{"branch": b, "branchone": one, "branchtwo": two, "branchthree": three} {
						if v != nil {
							m[k] = v
						}
					}
					out = append(out, m)
				}
			}
		}
	}
	return append(out, "a", nil, []any{})
}

func exData(fs []exField) []map[string]any {
	out := []map[string]any{{}}
	for _, f := range fs {
		var next []map[string]any
		for _, d := range out {
			next = append(next, d)
			for _, v := range f.vals {
				n := exCopy(d)
				n[f.name] = v
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

// exCUE writes a datum as a CUE literal, field names in order.
func exCUE(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return fmt.Sprintf("%q", x)
	case []any:
		return "[]"
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var parts []string
		for _, k := range ks {
			parts = append(parts, k+": "+exCUE(x[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	}
	return fmt.Sprint(v)
}

type exWorld struct {
	rt   *thema.Runtime
	lins map[string]thema.Lineage
}

func genC27(g *Gen) {
	specs := exemplarSpecs()
	names := map[string]bool{}
	for _, s := range specs {
		names[s.name] = true
	}
	g.Case("all", func(t *T) {
		rt := t.FreshRT()
		all := exemplars.All(rt)
		var got []string
		for n, l := range all {
			got = append(got, n)
			if l.Name() != n {
				t.Fail("all/name", "All has lineage %q under the name %q", l.Name(), n)
			}
			if l.Runtime() != rt {
				t.Fail("all/runtime", "lineage %q is bound on another runtime", n)
			}
		}
		sort.Strings(got)
		t.State("all", strings.Join(got, " "))
		for _, s := range specs {
			if all[s.name] == nil {
				t.Fail("all/missing", "All has no exemplar %q: %v", s.name, got)
			}
		}
		t.Checked("all", true)
	})
	g.Case("fs", func(t *T) {
		// The exemplars' file system is a CUE module with one package of them all.
		f := exemplars.CueFS()
		if _, err := fs.Stat(f, "cue.mod/module.cue"); err != nil {
			t.Fatal("fs/module", "CueFS is not a CUE module: %s", err)
		}
		rt := t.FreshRT()
		inst, err := load.InstanceWithThema(f, ".")
		if err != nil {
			t.Fatal("fs/load", "CueFS does not load: %s", err)
		}
		v := rt.Context().BuildInstance(inst)
		for _, s := range specs {
			l, err := thema.BindLineage(v.LookupPath(cue.MakePath(cue.Str(s.name), cue.Str("l"))), rt, thema.SkipBuggyChecks())
			if err != nil || l.Name() != s.name {
				t.Fail("fs/bind", "exemplar %q loaded from CueFS does not bind: %v", s.name, err)
			}
			t.Step()
		}
		t.Checked("fs", true)
	})
	for _, how := range []string{"all", "factory", "factory+skip", "factory+imperative"} {
		for _, s := range specs {
			if s.factory == nil && how != "all" {
				continue
			}
			how, s := how, s
			var w *exWorld
			get := func(t *T) thema.Lineage {
				if w == nil {
					w = &exWorld{rt: t.FreshRT(), lins: map[string]thema.Lineage{}}
					var l thema.Lineage
					var err error
					switch how {
					case "all":
						l = exemplars.All(w.rt)[s.name]
					case "factory":
						l, err = s.factory(w.rt)
					case "factory+skip":
						l, err = s.factory(w.rt, thema.SkipBuggyChecks())
					case "factory+imperative":
						l, err = s.factory(w.rt, thema.ImperativeLenses())
					}
					if err != nil {
						w = nil
						t.Fatal(s.name+"/bind", "%s: the factory fails: %s", how, err)
					}
					w.lins[s.name] = l
				}
				if w.lins[s.name] == nil {
					t.Fatal(s.name+"/missing", "%s: no lineage", how)
				}
				return w.lins[s.name]
			}
			key := how + "/" + s.name
			g.Case(key+"/versions", func(t *T) {
				lin := get(t)
				var got, want []string
				for _, sch := range lin.All() {
					got = append(got, sch.Version().String())
				}
				for _, v := range s.vers {
					want = append(want, vstr(v))
				}
				if strings.Join(got, " ") != strings.Join(want, " ") {
					t.Fail(s.name+"/versions", "schemas %v, expected %v", got, want)
				}
				if lin.Name() != s.name || lin.Runtime() != w.rt {
					t.Fail(s.name+"/name", "name %q, expected %q, on the given runtime", lin.Name(), s.name)
				}
				t.State(key, strings.Join(got, " "))
				t.Checked("versions", true)
			})
			for _, d := range exData(s.data) {
				d := d
				g.Case(key+"/"+exCUE(d), func(t *T) { exCheck(t, get(t), s, d) })
			}
		}
	}
}

func exCheck(t *T, lin thema.Lineage, s exm, d map[string]any) {
	src := exCUE(d)
	ctx := lin.Runtime().Context()
	anyValid := false
	for _, v := range s.vers {
		sch, err := lin.Schema(sv(v))
		if err != nil {
			t.Fatal(s.name+"/schema", "no schema %s: %s", vstr(v), err)
		}
		want, ok := s.valid(v, d)
		inst, err := sch.Validate(ctx.CompileString(src))
		t.Step()
		if (err == nil) != ok {
			t.Fail(s.name+"/validate", "%s %s: %s: valid is %v, expected %v (%v)", s.name, vstr(v), src, err == nil, ok, err)
			continue
		}
		t.State(s.name, src, vstr(v), fmt.Sprint(ok))
		if !ok {
			continue
		}
		anyValid = true
		ht := exText(inst.Hydrate().Underlying())
		if ht != exCUE(want) && ht != exCUE(exHydrated(s, v, want)) {
			t.Fail(s.name+"/hydrate", "%s %s: %s hydrates to %s, expected %s", s.name, vstr(v), src, ht, exCUE(want))
		}
		for _, to := range s.vers {
			t.Step()
			out, lac := s.tr(v, to, want)
			// The default of an absent optional field may or may not appear.
			out2, _ := s.tr(v, to, exHydrated(s, v, want))
			ti, tl, err := inst.Translate(sv(to))
			if err != nil {
				t.Fail(s.name+"/translate", "%s %s->%s: %s: %s", s.name, vstr(v), vstr(to), src, err)
				continue
			}
			if got := exText(ti.Underlying()); got != exCUE(out) && got != exCUE(out2) && got != exCUE(exHydrated(s, to, out)) && !(v == to && got == src) {
				t.Fail(s.name+"/result", "%s %s->%s: %s gives %s, expected %s", s.name, vstr(v), vstr(to), src, got, exCUE(out))
			}
			if ti.Schema().Version() != sv(to) {
				t.Fail(s.name+"/version", "%s %s->%s: the result is an instance of %s", s.name, vstr(v), vstr(to), ti.Schema().Version())
			}
			checkLac(t, s.name+"/lacunas", tl, lac)
		}
	}
	t.Checked(map[bool]string{true: "valid somewhere", false: "invalid everywhere"}[anyValid], anyValid)
}

// exHydrated fills the default of an absent optional field in, which expand's
// schemas from 0.2 on have.
func exHydrated(s exm, v [2]int, d map[string]any) map[string]any {
	if s.name != "expand" || v[1] < 2 {
		return d
	}
	out := exCopy(d)
	if _, ok := out["withDefault"]; !ok {
		out["withDefault"] = "foo"
	}
	return out
}

func exText(v cue.Value) string { return exCUE(exGo(v)) }

func exGo(v cue.Value) any {
	if d, ok := v.Default(); ok {
		v = d
	}
	switch v.Kind() {
	case cue.StringKind:
		s, _ := v.String()
		return s
	case cue.IntKind:
		i, _ := v.Int64()
		return int(i)
	case cue.BoolKind:
		b, _ := v.Bool()
		return b
	case cue.NullKind:
		return nil
	case cue.StructKind:
		m := map[string]any{}
		it, err := v.Fields()
		if err != nil {
			return "error " + err.Error()
		}
		for it.Next() {
			m[it.Label()] = exGo(it.Value())
		}
		return m
	}
	return fmt.Sprintf("not concrete: %v", v)
}
