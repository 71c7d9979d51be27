package main

import (
	"fmt"
	"strings"

	"cuelang.org/go/cue"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
)

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "a case is a lineage shape with traced lenses (each appends its own identity to a field, defaults differ per major) and a data variant, or a lens fault at one position; " +
			"all (from,to) pairs are translated and compared with the reference fold over the lens path; non-trivial: from differs from to",
		Gen: genC05,
	})
	register(&Prop{
		ID:   "C06",
		Rule: "a case is a traced lineage and a data variant; for every (a,b) the direct translation is compared with the route via every midpoint and with the successor/predecessor chain; non-trivial: at least two steps",
		Gen:  genC06,
	})
	register(&Prop{
		ID:   "C10",
		Rule: "a case is a lineage whose lenses carry lacunas of every kind, and a subset of trigger flags; all (from,to) pairs; the emitted list is compared with the reference; non-trivial: at least one lacuna expected",
		Gen:  genC10,
	})
}

// trLin describes a traced lineage. Schema (M,m): tr is the trace, mM a
// renamed required field, d a field whose default depends on the major, eM a
// field with a default that exists in that major only, oMxk optional fields
// added in minor k.
type trLin struct {
	vs    [][2]int
	passD bool // lenses copy d (else the target's default applies)
	join  bool
}

func (l trLin) schema(i int) Struct {
	v := l.vs[i]
	fs := []Field{
		req(fmt.Sprintf("m%d", v[0]), tString),
		req("tr", tString),
		req("d", Def{fmt.Sprintf("d%d", v[0]), tString}),
		req(fmt.Sprintf("e%d", v[0]), Def{Num(fmt.Sprint(v[0] + 10)), tInt}),
	}
	for k := 1; k <= v[1]; k++ {
		fs = append(fs, opt(fmt.Sprintf("o%dx%d", v[0], k), tInt))
	}
	return st(fs...)
}

// joined is schema(i) with the joinSchema's field.
func (l trLin) joined(i int) Struct {
	s := l.schema(i)
	if l.join {
		s.F = append(append([]Field{}, s.F...), req("j", tString))
	}
	return s
}

func (l trLin) lens(a, b [2]int) string {
	var p []string
	p = append(p, fmt.Sprintf("m%d: input.m%d", b[0], a[0]))
	p = append(p, fmt.Sprintf(`tr: "\(input.tr);%s>%s"`, vstr(a), vstr(b)))
	if l.passD {
		p = append(p, "d: input.d")
		p = append(p, fmt.Sprintf("e%d: input.e%d", b[0], a[0]))
	}
	if l.join {
		p = append(p, "j: input.j")
	}
	if a[0] == b[0] {
		for k := 1; k <= b[1]; k++ {
			p = append(p, fmt.Sprintf("if input.o%dx%d != _|_ {o%dx%d: input.o%dx%d}", a[0], k, a[0], k, a[0], k))
		}
	}
	return "{\n" + strings.Join(p, "\n") + "\n}"
}

func (l trLin) spec() LinSpec {
	s := LinSpec{Name: "lin"}
	for i, v := range l.vs {
		s.Schemas = append(s.Schemas, SchSpec{V: v, Body: l.schema(i).cue()})
	}
	if l.join {
		s.Join = "{j: string}"
	}
	for _, p := range lensPairs(l.vs) {
		s.Lenses = append(s.Lenses, LensSpec{From: p[0], To: p[1], Result: l.lens(p[0], p[1])})
	}
	return s
}

// data variants for schema i
func (l trLin) data(i int, variant string) map[string]any {
	v := l.vs[i]
	d := obj(fmt.Sprintf("m%d", v[0]), "M", "tr", "s")
	if l.join {
		d["j"] = "J"
	}
	switch variant {
	case "min":
	case "d":
		d["d"] = "given"
	case "full":
		d["d"] = fmt.Sprintf("d%d", v[0])
		d[fmt.Sprintf("e%d", v[0])] = Num("99")
		for k := 1; k <= v[1]; k++ {
			d[fmt.Sprintf("o%dx%d", v[0], k)] = Num(fmt.Sprint(k))
		}
	case "last":
		d[fmt.Sprintf("e%d", v[0])] = Num("0")
		if v[1] > 0 {
			d[fmt.Sprintf("o%dx%d", v[0], v[1])] = Num("0")
		}
	}
	return d
}

var trVariants = []string{"min", "d", "full", "last"}

// step is the reference semantics of one step of translation.
func (l trLin) step(in map[string]any, a, b int) map[string]any {
	va, vb := l.vs[a], l.vs[b]
	full, ok := accept(l.joined(a), in)
	if !ok {
		panic("harness: reference input invalid: " + lit(in))
	}
	f := full.(map[string]any)
	out := map[string]any{}
	if b > a && va[0] == vb[0] {
		for k, v := range f {
			out[k] = v
		}
	} else {
		out[fmt.Sprintf("m%d", vb[0])] = f[fmt.Sprintf("m%d", va[0])]
		out["tr"] = f["tr"].(string) + ";" + vstr(va) + ">" + vstr(vb)
		if l.passD {
			out["d"] = f["d"]
			out[fmt.Sprintf("e%d", vb[0])] = f[fmt.Sprintf("e%d", va[0])]
		}
		if l.join {
			out["j"] = f["j"]
		}
		if va[0] == vb[0] {
			for k := 1; k <= vb[1]; k++ {
				n := fmt.Sprintf("o%dx%d", va[0], k)
				if v, ok := f[n]; ok {
					out[n] = v
				}
			}
		}
	}
	r, ok := accept(l.joined(b), out)
	if !ok {
		panic("harness: reference output invalid: " + lit(out))
	}
	return r.(map[string]any)
}

func (l trLin) translate(in map[string]any, a, b int) map[string]any {
	cur := in
	for a != b {
		n := a + 1
		if b < a {
			n = a - 1
		}
		cur = l.step(cur, a, n)
		a = n
	}
	return cur
}

// mustBind binds a lineage that has to be accepted.
func mustBind(t *T, l LinSpec, opts ...thema.BindOption) thema.Lineage {
	lin, err := bindText(t.RT(), l.cue(), opts...)
	t.Step()
	if err != nil {
		t.Fatal("bind", "valid lineage rejected: %s\n%s", err, l.cue())
	}
	return lin
}

// mustValidate validates data that has to be accepted.
func mustValidate(t *T, sch thema.Schema, d any) *thema.Instance {
	inst, err := sch.Validate(mkdata(t.RT(), d))
	t.Step()
	if err != nil {
		t.Fatal("validate "+lit(d), "valid data %s rejected by %s: %s", lit(d), sch.Version(), err)
	}
	return inst
}

// checkInst verifies that inst is an instance of exactly sch holding want.
func checkInst(t *T, sig string, inst *thema.Instance, sch thema.Schema, want any) bool {
	if inst == nil {
		t.Fail(sig, "nil instance without error")
		return false
	}
	if inst.Schema() != sch {
		t.Fail(sig, "instance is of schema %s, expected %s", inst.Schema().Version(), sch.Version())
		return false
	}
	if got := valueOf(inst.Underlying()); got != lit(want) {
		t.Fail(sig, "data is %s, expected %s", got, lit(want))
		return false
	}
	if _, err := sch.Validate(inst.Underlying()); err != nil {
		t.Fail(sig, "result is not valid for its schema: %s", err)
		return false
	}
	return true
}

func trShapes(total int) [][]int { return shapes(total, total, total) }

func genC05(g *Gen) {
	max := 5
	if g.Thorough() {
		max = 7
	}
	for _, shape := range trShapes(max) {
		tot := 0
		for _, n := range shape {
			tot += n
		}
		for mode := 0; mode < 4; mode++ {
			for _, variant := range trVariants {
				if tot == max && (mode > 1 || variant == "d" || variant == "last") {
					continue
				}
				shape, mode, variant := shape, mode, variant
				g.Case(fmt.Sprintf("trace shape=%s pass=%v join=%v data=%s", shapeKey(shape), mode&1 == 0, mode&2 != 0, variant), func(t *T) {
					l := trLin{vs: versionsOf(shape), passD: mode&1 == 0, join: mode&2 != 0}
					lin := mustBind(t, l.spec())
					all := lin.All()
					for a := range l.vs {
						in := l.data(a, variant)
						inst := mustValidate(t, all[a], in)
						before := valueOf(inst.Underlying())
						for b := range l.vs {
							want := l.translate(in, a, b)
							got, _, err := inst.Translate(sv(l.vs[b]))
							t.Step()
							t.State(vstr(l.vs[a]), vstr(l.vs[b]))
							dir := "same"
							if b > a {
								dir = "forward"
							} else if b < a {
								dir = "backward"
							}
							d := b - a
							if d < 0 {
								d = -d
							}
							t.Checked(fmt.Sprintf("%s%d", dir, d), a != b)
							sig := vstr(l.vs[a]) + ">" + vstr(l.vs[b])
							if err != nil {
								t.Fail(sig, "translation failed: %s\ninput %s", err, lit(in))
								continue
							}
							checkInst(t, sig, got, all[b], want)
						}
						if valueOf(inst.Underlying()) != before || inst.Schema() != all[a] {
							t.Fail("mutated "+vstr(l.vs[a]), "translation changed its input instance")
						}
					}
					t.Sample("shape %s variant %s: all pairs", shapeKey(shape), variant)
				})
			}
		}
	}
	genC05Leaf(g)
	genC05Faults(g)
}

// every field type and every valid value passes through implicit and explicit lenses unchanged
func genC05Leaf(g *Gen) {
	for _, lt := range leafTypes {
		for _, o := range []bool{false, true} {
			lt, o := lt, o
			g.Case(fmt.Sprintf("leaf %s opt=%v", lt.Name, o), func(t *T) {
				f := Field{Name: "v", Opt: o, T: lt.T}
				bodies := []Struct{
					st(req("m0", tString), f),
					st(req("m0", tString), f, opt("n", tInt)),
					st(req("m1", tString), f),
				}
				vs := [][2]int{{0, 0}, {0, 1}, {1, 0}}
				cp := "v: input.v"
				if o {
					cp = "if input.v != _|_ {v: input.v}"
				}
				spec := LinSpec{Name: "lin"}
				for i := range vs {
					spec.Schemas = append(spec.Schemas, SchSpec{V: vs[i], Body: bodies[i].cue()})
				}
				for _, p := range lensPairs(vs) {
					spec.Lenses = append(spec.Lenses, LensSpec{From: p[0], To: p[1], Result: fmt.Sprintf("{m%d: input.m%d, %s}", p[1][0], p[0][0], cp)})
				}
				lin, err := bindText(t.RT(), spec.cue(), thema.SkipBuggyChecks())
				t.Step()
				if err != nil {
					t.Fatal("bind", "rejected: %s\n%s", err, spec.cue())
				}
				all := lin.All()
				for a := range vs {
					for _, pv := range probeValues {
						d := obj(fmt.Sprintf("m%d", vs[a][0]), "x")
						if pv != absent {
							d["v"] = pv
						}
						full, ok := accept(bodies[a], d)
						if !ok {
							continue
						}
						inst := mustValidate(t, all[a], d)
						for b := range vs {
							if b == a {
								continue
							}
							want := map[string]any{}
							for k, v := range full.(map[string]any) {
								want[k] = v
							}
							delete(want, fmt.Sprintf("m%d", vs[a][0]))
							want[fmt.Sprintf("m%d", vs[b][0])] = "x"
							got, _, err := inst.Translate(sv(vs[b]))
							t.Step()
							t.State(fmt.Sprint(a, b), lit(d))
							t.Checked("leaf "+lt.Name, true)
							sig := fmt.Sprintf("%d>%d %s", a, b, lit(d))
							if err != nil {
								t.Fail(sig, "failed: %s", err)
								continue
							}
							checkInst(t, sig, got, all[b], want)
						}
					}
				}
			})
		}
	}
}

// lens faults. Each returns the faulty result expression for the lens a>b.
var lensFaults = []string{"missing", "empty", "wrongtype", "abstract", "extra", "badref", "conflict", "dup", "partial"}

func genC05Faults(g *Gen) {
	max := 4
	if g.Thorough() {
		max = 5
	}
	for _, shape := range trShapes(max) {
		vs := versionsOf(shape)
		pairs := lensPairs(vs)
		for pi := range pairs {
			for _, fault := range lensFaults {
				shape, pi, fault := shape, pi, fault
				g.Case(fmt.Sprintf("fault shape=%s lens=%s>%s %s", shapeKey(shape), vstr(pairs[pi][0]), vstr(pairs[pi][1]), fault), func(t *T) {
					l := trLin{vs: vs, passD: true}
					spec := l.spec()
					a, b := pairs[pi][0], pairs[pi][1]
					ls := &spec.Lenses[pi]
					good := ls.Result
					switch fault {
					case "missing":
						spec.Lenses = append(append([]LensSpec{}, spec.Lenses[:pi]...), spec.Lenses[pi+1:]...)
					case "empty":
						ls.Result = "{}"
					case "wrongtype":
						ls.Result = strings.Replace(good, "tr: ", "tr: 5 //", 1)
					case "abstract":
						ls.Result = strings.Replace(good, "tr: ", "tr: string //", 1)
					case "extra":
						ls.Result = strings.Replace(good, "{\n", "{\nundeclared: 1\n", 1)
					case "badref":
						ls.Result = strings.Replace(good, "tr: ", "tr: input.nope //", 1)
					case "conflict":
						ls.Result = strings.Replace(good, "{\n", "{\n"+fmt.Sprintf("m%d: input.m%d + \"z\"\n", b[0], a[0]), 1)
					case "partial":
						ls.Result = strings.Replace(good, "tr: ", "//", 1)
					case "dup":
						var out []LensSpec
						for i, x := range spec.Lenses {
							out = append(out, x)
							if i == pi {
								x.Result = strings.Replace(x.Result, ";", ";DUP", 1)
								out = append(out, x)
							}
						}
						spec.Lenses = out
					}
					lin, err := bindText2(t.RT(), spec.cue())
					t.Step()
					t.State()
					if err != nil {
						t.Checked(fault+" rejected at bind", true)
						return
					}
					all := lin.All()
					ia, ib := indexOf(vs, a), indexOf(vs, b)
					for x := range vs {
						in := l.data(x, "full")
						inst := mustValidate(t, all[x], in)
						for y := range vs {
							if x == y {
								continue
							}
							hit := ia < ib && x <= ia && y >= ib || ia > ib && x >= ia && y <= ib
							got, _, err := inst.Translate(sv(vs[y]))
							t.Step()
							t.State(fmt.Sprint(x, y))
							t.Checked(fmt.Sprintf("%s hit=%v err=%v", fault, hit, err != nil), true)
							sig := vstr(vs[x]) + ">" + vstr(vs[y])
							if err != nil {
								if got != nil {
									t.Fail(sig, "instance returned together with an error")
								}
								if !errors.Is(err, terrors.ErrInvalidLens) {
									t.Fail(sig, "error is not ErrInvalidLens: %v", err)
								}
								// a set of lenses that is not the expected one may disable others too
								if !hit && fault != "missing" && fault != "dup" {
									t.Fail(sig, "translation over intact lenses failed: %s", err)
								}
								continue
							}
							if hit && fault != "dup" {
								t.Fail(sig, "translation over a broken lens succeeded with %s", valueOf(got.Underlying()))
								continue
							}
							checkInst(t, sig, got, all[y], l.translate(in, x, y))
						}
					}
				})
			}
		}
		// Unexpected lenses are never applied.
		for x := range vs {
			for y := range vs {
				exp := false
				for _, p := range pairs {
					exp = exp || p[0] == vs[x] && p[1] == vs[y]
				}
				if exp {
					continue
				}
				shape, x, y := shape, x, y
				g.Case(fmt.Sprintf("extraneous shape=%s lens=%s>%s", shapeKey(shape), vstr(vs[x]), vstr(vs[y])), func(t *T) {
					l := trLin{vs: vs, passD: true}
					spec := l.spec()
					nl := LensSpec{From: vs[x], To: vs[y], Result: fmt.Sprintf(`{m%d: "EXTRA", tr: "EXTRA"}`, vs[y][0])}
					var out []LensSpec
					done := false
					for _, s := range spec.Lenses {
						if !done && (less(nl.To, s.To) || nl.To == s.To && less(nl.From, s.From)) {
							out = append(out, nl)
							done = true
						}
						out = append(out, s)
					}
					if !done {
						out = append(out, nl)
					}
					spec.Lenses = out
					lin, err := bindText2(t.RT(), spec.cue())
					t.Step()
					t.State()
					if err != nil {
						t.Checked("extraneous rejected at bind", true)
						return
					}
					all := lin.All()
					for a := range vs {
						in := l.data(a, "full")
						inst := mustValidate(t, all[a], in)
						for b := range vs {
							got, _, err := inst.Translate(sv(vs[b]))
							t.Step()
							t.Checked(fmt.Sprintf("extraneous err=%v", err != nil), true)
							sig := vstr(vs[a]) + ">" + vstr(vs[b])
							if err != nil {
								if !errors.Is(err, terrors.ErrInvalidLens) {
									t.Fail(sig, "error is not ErrInvalidLens: %v", err)
								}
								continue
							}
							checkInst(t, sig, got, all[b], l.translate(in, a, b))
						}
					}
				})
			}
		}
	}
}

func less(a, b [2]int) bool { return a[0] < b[0] || a[0] == b[0] && a[1] < b[1] }

func indexOf(vs [][2]int, v [2]int) int {
	for i := range vs {
		if vs[i] == v {
			return i
		}
	}
	return -1
}

func genC06(g *Gen) {
	max := 4
	if g.Thorough() {
		max = 6
	}
	for _, shape := range trShapes(max) {
		for mode := 0; mode < 2; mode++ {
			for _, variant := range trVariants {
				shape, mode, variant := shape, mode, variant
				g.Case(fmt.Sprintf("routes shape=%s pass=%v data=%s", shapeKey(shape), mode == 0, variant), func(t *T) {
					l := trLin{vs: versionsOf(shape), passD: mode == 0}
					lin := mustBind(t, l.spec())
					all := lin.All()
					n := len(all)
					fill := func(i int, inst *thema.Instance) string {
						c, err := canon([]byte(valueOf(inst.Underlying())))
						if err != nil {
							return "ERR"
						}
						f, ok := accept(l.joined(i), c)
						if !ok {
							return "INVALID " + lit(c)
						}
						return lit(f)
					}
					cmp := func(sig string, i int, got *thema.Instance, err error, want string) {
						t.Checked("route "+strings.SplitN(sig, " ", 2)[0], true)
						if err != nil {
							t.Fail(sig, "failed: %s", err)
							return
						}
						if got.Schema() != all[i] {
							t.Fail(sig, "schema %s, expected %s", got.Schema().Version(), vstr(l.vs[i]))
							return
						}
						if f := fill(i, got); f != want {
							t.Fail(sig, "got %s, direct translation gives %s", f, want)
						}
					}
					for a := 0; a < n; a++ {
						inst := mustValidate(t, all[a], l.data(a, variant))
						// successor and predecessor chains
						up := []*thema.Instance{inst}
						for cur := inst; len(up)+a < n; {
							nx, _, err := cur.AsSuccessor()
							t.Step()
							if err != nil {
								t.Fatal("succ "+vstr(l.vs[a]), "AsSuccessor failed: %s", err)
							}
							up = append(up, nx)
							cur = nx
						}
						down := []*thema.Instance{inst}
						for cur := inst; len(down) <= a; {
							nx, _, err := cur.AsPredecessor()
							t.Step()
							if err != nil {
								t.Fatal("pred "+vstr(l.vs[a]), "AsPredecessor failed: %s", err)
							}
							down = append(down, nx)
							cur = nx
						}
						x, lac, err := up[len(up)-1].AsSuccessor()
						t.Checked("end successor", true)
						if err == nil || x != nil || lac != nil || !errors.Is(err, terrors.ErrVersionNotExist) {
							t.Fail("end-succ", "successor of the latest schema: %v, %v", x, err)
						}
						x, lac, err = down[len(down)-1].AsPredecessor()
						t.Checked("end predecessor", true)
						if err == nil || x != nil || lac != nil || !errors.Is(err, terrors.ErrVersionNotExist) {
							t.Fail("end-pred", "predecessor of the first schema: %v, %v", x, err)
						}
						for b := 0; b < n; b++ {
							direct, _, err := inst.Translate(sv(l.vs[b]))
							t.Step()
							if err != nil {
								t.Fatal("direct", "%s>%s: %s", vstr(l.vs[a]), vstr(l.vs[b]), err)
							}
							want := fill(b, direct)
							t.State(fmt.Sprint(a, b))
							if b >= a {
								cmp(fmt.Sprintf("chain %d>%d", a, b), b, up[b-a], nil, want)
							} else {
								cmp(fmt.Sprintf("chain %d>%d", a, b), b, down[a-b], nil, want)
							}
							lo, hi := a, b
							if lo > hi {
								lo, hi = hi, lo
							}
							for m := lo; m <= hi; m++ {
								// via Translate
								mi, _, err := inst.Translate(sv(l.vs[m]))
								t.Step()
								if err != nil {
									t.Fail("mid", "%d>%d: %s", a, m, err)
									continue
								}
								got, _, err := mi.Translate(sv(l.vs[b]))
								t.Step()
								cmp(fmt.Sprintf("via %d>%d>%d", a, m, b), b, got, err, want)
								// via the chain
								c := down
								k := a - m
								if m >= a {
									c, k = up, m-a
								}
								got, _, err = c[k].Translate(sv(l.vs[b]))
								t.Step()
								cmp(fmt.Sprintf("chainvia %d>%d>%d", a, m, b), b, got, err, want)
								// revalidating the intermediate data as fresh input changes nothing
								rv, err := all[m].Validate(mi.Underlying())
								if err != nil {
									t.Fail("revalidate", "%d>%d: %s", a, m, err)
									continue
								}
								got, _, err = rv.Translate(sv(l.vs[b]))
								t.Step()
								cmp(fmt.Sprintf("revalidated %d>%d>%d", a, m, b), b, got, err, want)
							}
						}
					}
					t.Sample("shape %s: all triples", shapeKey(shape))
				})
			}
		}
	}
}

// ---- C10

var lacTypes = []string{"Placeholder", "DroppedField", "LossyFieldMapping", "ChangedDefault"}

// kinds of lacuna lists on a lens
var lacKinds = []string{"none", "uncond", "if", "condition", "mixed", "two", "fields", "twice"}

type expLac struct {
	msg  string
	typ  int
	src  string
	dst  string
	flag bool // emitted only when the lens's flag is set
	neg  bool // emitted only when the lens's flag is not set
}

func lacList(kind string, id string, ti int) (string, []expLac) {
	base := func(msg string, ti int, extra string) string {
		return fmt.Sprintf(`{message: %q, type: thema.#LacunaTypes.%s%s}`, msg, lacTypes[ti%4], extra)
	}
	m := func(s string) string {
		if id == "gap" {
			return id
		}
		return id + " " + s
	}
	tid := func(i int) int { return i%4 + 1 }
	switch kind {
	case "none":
		return "", nil
	case "uncond":
		return "[" + base(m("u"), ti, "") + "]", []expLac{{msg: m("u"), typ: tid(ti)}}
	case "if":
		return "[if input.flag {" + base(m("i"), ti, "") + "}]", []expLac{{msg: m("i"), typ: tid(ti), flag: true}}
	case "condition":
		return "[" + base(m("c"), ti, ", condition: input.flag") + "]", []expLac{{msg: m("c"), typ: tid(ti), flag: true}}
	case "mixed":
		return "[" + base(m("1"), ti, ", condition: input.flag") + "," + base(m("2"), ti+1, "") + ", if !input.flag {" + base(m("3"), ti+2, "") + "}]",
			[]expLac{{msg: m("1"), typ: tid(ti), flag: true}, {msg: m("2"), typ: tid(ti + 1)}, {msg: m("3"), typ: tid(ti + 2), neg: true}}
	case "two":
		return "[" + base(m("a"), ti, "") + "," + base(m("b"), ti+3, ", condition: true") + "," + base(m("never"), ti, ", condition: false") + "]",
			[]expLac{{msg: m("a"), typ: tid(ti)}, {msg: m("b"), typ: tid(ti + 3)}}
	case "twice":
		return "[" + base(m("t"), ti, "") + "," + base(m("t"), ti, "") + "]", []expLac{{msg: m("t"), typ: tid(ti)}, {msg: m("t"), typ: tid(ti)}}
	case "fields":
		return "[" + base(m("f"), ti, `, condition: input.flag, sourceFields: [{path: "tr", value: input.tr}], targetFields: [{path: "tr", value: result.tr}, {path: "x", value: 7}]`) + "]",
			[]expLac{{msg: m("f"), typ: tid(ti), flag: true, src: "tr", dst: "tr,x"}}
	}
	panic(kind)
}

func genC10(g *Gen) {
	max := 3
	if g.Thorough() {
		max = 4
	}
	for _, shape := range trShapes(max) {
		vs := versionsOf(shape)
		pairs := lensPairs(vs)
		if len(pairs) == 0 {
			continue
		}
		// every assignment of kinds to lenses for up to 2 lenses, every rotation beyond
		n := len(pairs)
		var assigns [][]int
		if n <= 2 {
			forSeq(n, len(lacKinds), func(ix []int) { assigns = append(assigns, ix) })
		} else {
			for r := 0; r < len(lacKinds); r++ {
				for step := 0; step < len(lacKinds); step++ {
					ix := make([]int, n)
					for i := range ix {
						ix[i] = (r + i*step) % len(lacKinds)
					}
					assigns = append(assigns, ix)
				}
			}
		}
		for k := 0; k < 2*len(assigns); k++ {
			shape, as := shape, assigns[k/2]
			key, same := fmt.Sprintf("shape=%s kinds=%v", shapeKey(shape), as), k%2 == 1
			if same {
				key += " same messages"
			}
			g.Case(key, func(t *T) {
				spec := LinSpec{Name: "lin"}
				for i := range vs {
					body := fmt.Sprintf("{m%d: string, tr: string, flag: bool", vs[i][0])
					for k := 1; k <= vs[i][1]; k++ {
						body += fmt.Sprintf(", o%d?: int", k)
					}
					spec.Schemas = append(spec.Schemas, SchSpec{V: vs[i], Body: body + "}"})
				}
				exp := map[[2][2]int][]expLac{}
				for i, p := range pairs {
					msg, typ := vstr(p[0])+">"+vstr(p[1]), i
					if same {
						msg, typ = "gap", 0
					}
					txt, e := lacList(lacKinds[as[i]], msg, typ)
					exp[p] = e
					spec.Lenses = append(spec.Lenses, LensSpec{From: p[0], To: p[1],
						Result:  fmt.Sprintf(`{m%d: input.m%d, tr: "\(input.tr)+", flag: input.flag}`, p[1][0], p[0][0]),
						Lacunas: txt})
				}
				text := "#Lineage & {\n" + strings.ReplaceAll(spec.cue(), "thema.#", "#") + "\n}"
				rt := t.RT()
				v := rt.Context().CompileString(text, cue.Filename("lineage.cue"), cue.Scope(rt.Underlying()))
				lin, err := thema.BindLineage(v, rt)
				t.Step()
				if err != nil {
					t.Fatal("bind", "rejected: %s\n%s", err, text)
				}
				all := lin.All()
				for a := range vs {
					for _, flag := range []bool{false, true} {
						inst := mustValidate(t, all[a], obj(fmt.Sprintf("m%d", vs[a][0]), "x", "tr", "t", "flag", flag))
						for b := range vs {
							var want []string
							tr := "t"
							for c := a; c != b; {
								nx := c + 1
								if b < a {
									nx = c - 1
								}
								es := exp[[2][2]int{vs[c], vs[nx]}]
								explicit := nx < c || vs[nx][0] != vs[c][0]
								ntr := tr
								if explicit {
									ntr = tr + "+"
								} else {
									es = nil
								}
								for _, e := range es {
									if e.flag && !flag || e.neg && flag {
										continue
									}
									s := fmt.Sprintf("%s/%d", e.msg, e.typ)
									if e.src != "" {
										s += fmt.Sprintf("/src tr=%s/dst tr=%s x=7", tr, ntr)
									}
									want = append(want, s)
								}
								tr = ntr
								c = nx
							}
							got, lac, err := inst.Translate(sv(vs[b]))
							t.Step()
							t.State(fmt.Sprint(a, b, flag))
							t.Checked(fmt.Sprintf("lacunas=%d", len(want)), len(want) > 0)
							sig := fmt.Sprintf("%s>%s flag=%v", vstr(vs[a]), vstr(vs[b]), flag)
							if err != nil {
								t.Fail(sig, "failed: %s\n%s", err, text)
								continue
							}
							_ = got
							checkLac(t, sig, lac, want)
							if b == a+1 {
								_, lac, err := inst.AsSuccessor()
								t.Step()
								if err != nil {
									t.Fail(sig+" succ", "failed: %s", err)
								} else {
									checkLac(t, sig+" succ", lac, want)
								}
							}
							if b == a-1 {
								_, lac, err := inst.AsPredecessor()
								t.Step()
								if err != nil {
									t.Fail(sig+" pred", "failed: %s", err)
								} else {
									checkLac(t, sig+" pred", lac, want)
								}
							}
						}
					}
				}
				t.Sample("%s", text)
			})
		}
	}
}

func checkLac(t *T, sig string, lac thema.TranslationLacunas, want []string) {
	var got []string
	if lac != nil {
		for _, l := range lac.AsList() {
			s := fmt.Sprintf("%s/%d", l.Message, l.Type)
			if len(l.SourceFields) > 0 || len(l.TargetFields) > 0 {
				s += "/src"
				for _, f := range l.SourceFields {
					s += fmt.Sprintf(" %s=%v", f.Path, f.Value)
				}
				s += "/dst"
				for _, f := range l.TargetFields {
					s += fmt.Sprintf(" %s=%v", f.Path, f.Value)
				}
			}
			got = append(got, s)
		}
	}
	if strings.Join(got, "|") != strings.Join(want, "|") {
		t.Fail(sig, "lacunas %v, expected %v", got, want)
	}
}
