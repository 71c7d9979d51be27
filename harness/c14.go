package main

import (
	"encoding/json"
	"fmt"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/vmux"
	yaml3 "gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "a case is a lineage (every assignment of accepted marker fields to up to 3 schemas under every numbering, or a traced shape up to 4 schemas) and a target version; every datum is passed in JSON and YAML through all four multiplexers; " +
			"the result is compared with the reference (target first, else newest fitting schema and lens fold); codec cases check decode and encode of every probe value; non-trivial: translated or rejected",
		Gen: genC14,
	})
}

// Typed bindings for every subset of the marker fields p0, p1.
type mxT0 struct {
	K  string `json:"k"`
	Tr string `json:"tr"`
}
type mxT1 struct {
	K  string `json:"k"`
	Tr string `json:"tr"`
	P0 *int32 `json:"p0,omitempty"`
}
type mxT2 struct {
	K  string `json:"k"`
	Tr string `json:"tr"`
	P1 *int32 `json:"p1,omitempty"`
}
type mxT3 struct {
	K  string `json:"k"`
	Tr string `json:"tr"`
	P0 *int32 `json:"p0,omitempty"`
	P1 *int32 `json:"p1,omitempty"`
}

// mxOut is what one multiplexer delivered, in a common form.
type mxOut struct {
	data string // canonical JSON, "" if none
	ver  string // version of the instance, if the mux yields one
	lac  int
	err  error
	none bool // nothing (nil) was delivered
}

type mxFn struct {
	name string
	f    func(b []byte) mxOut
}

func lacCount(l thema.TranslationLacunas) int {
	if l == nil {
		return 0
	}
	return len(l.AsList())
}

func goJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "ERR(" + err.Error() + ")"
	}
	c, err := canon(b)
	if err != nil {
		return "ERR(" + err.Error() + ")"
	}
	return lit(c)
}

func instOut(i *thema.Instance, l thema.TranslationLacunas, err error) mxOut {
	o := mxOut{err: err, lac: lacCount(l), none: i == nil}
	if i != nil {
		o.data = valueOf(i.Underlying())
		o.ver = i.Schema().Version().String()
	}
	return o
}

func untypedMuxes(sch thema.Schema, cn string, c vmux.Codec) []mxFn {
	um := vmux.NewUntypedMux(sch, c)
	bm := vmux.NewByteMux(sch, c)
	return []mxFn{
		{"untyped", func(b []byte) mxOut { return instOut(um(b)) }},
		{"byte", func(b []byte) mxOut {
			ob, l, err := bm(b)
			o := mxOut{err: err, lac: lacCount(l), none: ob == nil}
			if ob != nil {
				o.data = parseAs(cn, ob)
			}
			return o
		}},
	}
}

// parseAs reads encoded output with a parser that is not the repository's.
func parseAs(cn string, b []byte) string {
	if cn == "json" {
		c, err := canon(b)
		if err != nil {
			return "ERR(" + err.Error() + ")"
		}
		return lit(c)
	}
	var v any
	if err := yaml3.Unmarshal(b, &v); err != nil {
		return "ERR(" + err.Error() + ")"
	}
	return goJSON(v)
}

func typedMuxes[X any](sch thema.Schema, x X, c vmux.Codec) ([]mxFn, error) {
	ts, err := thema.BindType[*X](sch, &x)
	if err != nil {
		return nil, err
	}
	tm := vmux.NewTypedMux[*X](ts, c)
	vm := vmux.NewValueMux[*X](ts, c)
	return []mxFn{
		{"typed", func(b []byte) mxOut {
			ti, l, err := tm(b)
			if ti == nil {
				return mxOut{err: err, lac: lacCount(l), none: true}
			}
			o := instOut(ti.Instance, l, err)
			if ti.TypedSchema() != ts {
				o.ver = "foreign typed schema"
			}
			return o
		}},
		{"value", func(b []byte) mxOut {
			v, l, err := vm(b)
			o := mxOut{err: err, lac: lacCount(l)}
			if err != nil {
				// by contract the defaults come with the error
				o.none = goJSON(v) == goJSON(ts.NewT())
				return o
			}
			o.data = goJSON(v)
			return o
		}},
	}, nil
}

func genC14(g *Gen) {
	codecs := []struct {
		n string
		c vmux.Codec
	}{{"json", vmux.NewJSONCodec("in.json")}, {"yaml", vmux.NewYAMLCodec("in.yaml")}}

	// Overlap lineages: schema i accepts the marker fields in S_i.
	body := func(s int) Struct {
		fs := []Field{req("k", tString), req("tr", Def{"", tString})}
		for j := 0; j < 2; j++ {
			if s>>j&1 == 1 {
				fs = append(fs, opt(fmt.Sprintf("p%d", j), Range{-2147483648, 2147483647, "int32"}))
			}
		}
		return st(fs...)
	}
	var data []map[string]any
	for m := 0; m < 4; m++ {
		for _, k := range []any{"v", "no", Num("1"), absent} {
			for _, tr := range []any{absent, "t"} {
				d := map[string]any{}
				if k != absent {
					d["k"] = k
				}
				if tr != absent {
					d["tr"] = tr
				}
				for j := 0; j < 2; j++ {
					if m>>j&1 == 1 {
						d[fmt.Sprintf("p%d", j)] = Num("7")
					}
				}
				data = append(data, d)
			}
		}
	}
	malformed := map[string][]string{
		"json": {"", "{", `{"k":"v",}`, `{"k":"v"} x`, `{"k":"v"}{"k":"v"}`, `k: v`, `{k:"v"}`, "\xff", "[]", "null", `"s"`, "1", `{"k":"v","k":"w"}`},
		"yaml": {"a: [", "a: b: c", "\t", "- k: v", "k: v\nz: 1", "null", "{", "k: v\nk: w"},
	}
	steps := func(n int) [][]int {
		var out [][]int
		forSeq(n-1, 2, func(s []int) { out = append(out, append([]int{}, s...)) })
		return out
	}
	maxN := 3
	for n := 1; n <= maxN; n++ {
		n := n
		forSeq(n, 4, func(ss []int) {
			ss = append([]int{}, ss...)
			for _, stp := range steps(n) {
				vs := numbering(stp)
				for target := 0; target < n; target++ {
					if n == 3 && !g.Thorough() && stp[0] == 0 && stp[1] == 0 && ss[0] == ss[1] {
						continue
					}
					target := target
					g.Case(fmt.Sprintf("overlap %v %v target %s", ss, vs, vstr(vs[target])), func(t *T) {
						spec := LinSpec{Name: "lin"}
						for i := range ss {
							spec.Schemas = append(spec.Schemas, SchSpec{V: vs[i], Body: body(ss[i]).cue()})
						}
						lens := func(a, b [2]int) string {
							return fmt.Sprintf(`{k: input.k, tr: "\(input.tr);%s>%s"}`, vstr(a), vstr(b))
						}
						for _, p := range lensPairs(vs) {
							spec.Lenses = append(spec.Lenses, LensSpec{From: p[0], To: p[1], Result: lens(p[0], p[1])})
						}
						lin := mustBind(t, spec, thema.SkipBuggyChecks())
						sch := lin.All()[target]
						// reference
						ref := func(d any) (string, bool, int) {
							if _, ok := accept(body(ss[target]), d); ok {
								return lit(d), true, target
							}
							for i := n - 1; i >= 0; i-- {
								f, ok := accept(body(ss[i]), d)
								if !ok {
									continue
								}
								cur := f.(map[string]any)
								for c := i; c != target; {
									nx := c + 1
									if target < c {
										nx = c - 1
									}
									if nx < c || vs[nx][0] != vs[c][0] {
										cur = obj("k", cur["k"], "tr", cur["tr"].(string)+";"+vstr(vs[c])+">"+vstr(vs[nx]))
									}
									r, ok := accept(body(ss[nx]), cur)
									if !ok {
										return "", false, i // implicit lens not applicable
									}
									cur = r.(map[string]any)
									c = nx
								}
								return lit(cur), true, i
							}
							return "", false, -1
						}
						for _, cd := range codecs {
							if n == 3 && cd.n == "yaml" && !g.Thorough() {
								continue
							}
							muxes := untypedMuxes(sch, cd.n, cd.c)
							var tm []mxFn
							var err error
							switch ss[target] {
							case 0:
								tm, err = typedMuxes(sch, mxT0{}, cd.c)
							case 1:
								tm, err = typedMuxes(sch, mxT1{}, cd.c)
							case 2:
								tm, err = typedMuxes(sch, mxT2{}, cd.c)
							case 3:
								tm, err = typedMuxes(sch, mxT3{}, cd.c)
							}
							t.Step()
							if err != nil {
								t.Fatal("bindtype", "assignable type rejected: %s", err)
							}
							muxes = append(muxes, tm...)
							for _, d := range data {
								want, ok, via := ref(d)
								in := []byte(lit(d))
								if cd.n == "yaml" {
									in, _ = yaml3.Marshal(yamlable(d))
								}
								for _, m := range muxes {
									o := m.f(in)
									t.Step()
									t.State(cd.n, m.name, lit(d))
									out := "direct"
									if via != target {
										out = "translated"
									}
									if !ok {
										out = "rejected"
									}
									t.Checked(m.name+" "+out, out != "direct")
									sig := cd.n + " " + m.name + " " + lit(d)
									if ok != (o.err == nil) {
										t.Fail(sig, "expected success=%v, got err=%v", ok, o.err)
										continue
									}
									if !ok {
										if !o.none {
											t.Fail(sig, "an error together with a result")
										}
										continue
									}
									w := want
									if m.name == "value" {
										full, _ := accept(body(ss[target]), mustCanon(want))
										w = lit(full)
									}
									if o.data != w {
										t.Fail(sig, "got %s, expected %s (found at schema %d)", o.data, w, via)
									}
									if o.ver != "" && o.ver != vstr(vs[target]) {
										t.Fail(sig, "instance is of version %s, expected %s", o.ver, vstr(vs[target]))
									}
								}
							}
							for _, mf := range malformed[cd.n] {
								for _, m := range muxes {
									o := m.f([]byte(mf))
									t.Step()
									t.State(cd.n, m.name, "raw", mf)
									t.Checked(m.name+" malformed", true)
									if o.err == nil || !o.none {
										t.Fail(cd.n+" "+m.name+" raw "+mf, "malformed or invalid input accepted: %s", o.data)
									}
								}
							}
						}
						t.Sample("%s", spec.cue())
					})
				}
			}
		})
	}

	// Traced lineages, deeper paths.
	max := 4
	if g.Thorough() {
		max = 5
	}
	for _, shape := range trShapes(max) {
		for _, variant := range trVariants {
			shape, variant := shape, variant
			g.Case(fmt.Sprintf("trace shape=%s data=%s", shapeKey(shape), variant), func(t *T) {
				l := trLin{vs: versionsOf(shape), passD: true}
				lin := mustBind(t, l.spec())
				all := lin.All()
				for b := range l.vs {
					for _, cd := range codecs {
						muxes := untypedMuxes(all[b], cd.n, cd.c)
						for a := range l.vs {
							in := l.data(a, variant)
							// the data may also fit the target or a newer schema
							want := ""
							if _, ok := accept(l.schema(b), in); ok {
								want = lit(in)
							} else {
								for i := len(l.vs) - 1; i >= 0; i-- {
									if _, ok := accept(l.schema(i), in); ok {
										want = lit(l.translate(in, i, b))
										break
									}
								}
							}
							enc := []byte(lit(in))
							if cd.n == "yaml" {
								enc, _ = yaml3.Marshal(yamlable(in))
							}
							for _, m := range muxes {
								o := m.f(enc)
								t.Step()
								t.State(cd.n, m.name, fmt.Sprint(a, b))
								t.Checked(m.name+" trace", a != b)
								sig := fmt.Sprintf("%s %s %s>%s", cd.n, m.name, vstr(l.vs[a]), vstr(l.vs[b]))
								if o.err != nil {
									t.Fail(sig, "failed: %s", o.err)
								} else if o.data != want || o.ver != "" && o.ver != vstr(l.vs[b]) {
									t.Fail(sig, "got %s at %s, expected %s", o.data, o.ver, want)
								}
							}
						}
					}
				}
			})
		}
	}

	// Lacunas travel through the multiplexers that report them.
	for _, cd := range codecs {
		for _, trig := range []bool{false, true} {
			cd, trig := cd, trig
			g.Case(fmt.Sprintf("lacuna %s trigger=%v", cd.n, trig), func(t *T) {
				spec := LinSpec{Name: "lin", Schemas: []SchSpec{
					{V: [2]int{0, 0}, Body: "{a: string}"}, {V: [2]int{1, 0}, Body: "{k: string, tr: string}"}},
					Lenses: []LensSpec{
						{From: [2]int{1, 0}, To: [2]int{0, 0}, Result: "{a: input.k}"},
						{From: [2]int{0, 0}, To: [2]int{1, 0}, Result: `{k: input.a, tr: "x"}`,
							Lacunas: `[if input.a == "t" {{message: "lost", type: #LacunaTypes.Placeholder, targetFields: [{path: "k", value: input.a}]}}]`},
					}}
				rt := t.RT()
				lin, err := thema.BindLineage(rt.Context().CompileString("#Lineage & {\n"+spec.cue()+"\n}", cue.Scope(rt.Underlying())), rt)
				t.Step()
				if err != nil {
					t.Fatal("bind", "rejected: %s", err)
				}
				sch := lin.Latest()
				muxes := untypedMuxes(sch, cd.n, cd.c)
				tm, err := typedMuxes(sch, mxT0{}, cd.c)
				if err != nil {
					t.Fatal("bindtype", "%s", err)
				}
				in, want := "n", 0
				if trig {
					in, want = "t", 1
				}
				for _, m := range append(muxes, tm...) {
					o := m.f([]byte(fmt.Sprintf(`{"a": %q}`, in)))
					t.Step()
					t.State(m.name)
					t.Checked(m.name+" lacuna", trig)
					if o.err != nil || o.lac != want || o.data != lit(obj("k", in, "tr", "x")) {
						t.Fail(m.name, "got data %s, %d lacunas, err %v; expected %d lacunas", o.data, o.lac, o.err, want)
					}
				}
			})
		}
	}

	// Codecs: decoding and encoding change nothing.
	vals := append([]any{}, probeValues[1:]...)
	for _, s := range []string{"yes", "no", "null", "~", "1", "1.0", "0x10", "1e3", "2020-01-01", "a: b", "- a", "#c", "a #c", "line\nbreak", "trail\n", " lead", "tab\t", "é", "\u2028", `q"uote`, `back\slash`, "{", "%", "*x", "&x", "!t", "|", ">", "@", "`", "'", ".inf", "=", "<<", "true", "On", "0o7", "1_000", "12:30:45"} {
		vals = append(vals, s, obj("f", s), arr(s))
		if s != "#c" && s != "<<" {
			// CUE's own JSON and YAML readers do not take these as field names
			vals = append(vals, obj(s, Num("1")))
		}
	}
	for _, n := range []string{"0", "-0.0", "1e3", "1E-7", "123456789012345678901234567890", "0.1", "-5", "1.50"} {
		vals = append(vals, Num(n), obj("f", Num(n)))
	}
	for _, cd := range codecs {
		for i, v := range vals {
			cd, v := cd, v
			g.Case(fmt.Sprintf("codec %s #%d %s", cd.n, i, lit(v)), func(t *T) {
				in := []byte(lit(v))
				cv, err := cd.c.Decode(t.RT().Context(), in) // JSON is YAML too
				t.Step()
				t.State()
				t.Checked("codec "+cd.n, true)
				if err != nil {
					t.Fatal("decode", "decode of %s failed: %s", in, err)
				}
				if err := cv.Err(); err != nil {
					t.Fatal("decode", "decoded value of %s is an error: %s", in, err)
				}
				want := valueOf(mkdata(t.RT(), v))
				if got := valueOf(cv); !sameNum(got, want) {
					t.Fail("decode", "decoded %s, expected %s", got, want)
				}
				b, err := cd.c.Encode(cv)
				t.Step()
				if err != nil {
					t.Fatal("encode", "encode of %s failed: %s", in, err)
				}
				got, err := decodeBack(t, cd.c, b)
				if err != nil || !sameNum(got, want) {
					t.Fail("encode", "encoded as %q which reads back as %s (%v), expected %s", b, got, err, want)
				}
				if cd.n == "json" && !sameNum(parseAs("json", b), want) {
					t.Fail("encode", "encoded as %q, expected %s", b, want)
				}
			})
		}
	}
}

func decodeBack(t *T, c vmux.Codec, b []byte) (string, error) {
	v, err := c.Decode(t.RT().Context(), b)
	if err != nil {
		return "", err
	}
	return valueOf(v), nil
}

// sameNum compares canonical JSON texts up to the spelling of numbers.
func sameNum(a, b string) bool {
	if a == b {
		return true
	}
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	jx, _ := json.Marshal(x)
	jy, _ := json.Marshal(y)
	return string(jx) == string(jy)
}

func mustCanon(s string) any {
	c, err := canon([]byte(s))
	if err != nil {
		panic(err)
	}
	return c
}

// yamlable converts the model's numbers into Go numbers for yaml.v3.
func yamlable(v any) any {
	switch x := v.(type) {
	case Num:
		if x.isInt() {
			var i int64
			fmt.Sscan(string(x), &i)
			return i
		}
		var f float64
		fmt.Sscan(string(x), &f)
		return f
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, yamlable(e))
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = yamlable(e)
		}
		return out
	}
	return v
}
