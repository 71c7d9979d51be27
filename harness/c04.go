package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
)

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "a case is a sequence of overlapping schema bodies under one contiguous numbering; every datum of the product of field values is passed to ValidateAny, in two orders, and compared with the first accepting schema of the reference; non-trivial: accepted by at least one schema",
		Gen:  genC04,
	})
	register(&Prop{
		ID:   "C07",
		Rule: "a case is a lineage shape bound with recording Go mappers, without or with one fault (position x kind); all (from,to) pairs; results, call sequences and errors are compared with the reference fold and with the CUE-lens twin; non-trivial: at least one mapper on the path",
		Gen:  genC07,
	})
	register(&Prop{
		ID:   "C08",
		Rule: "a case is a lineage shape and a set (sequence) of Go lenses: all subsets of the needed ones, each with every extra, duplicate, nil, every order; the bind verdict is compared with set equality; non-trivial: set differs from the needed one",
		Gen:  genC08,
	})
	register(&Prop{
		ID:   "C09",
		Rule: "a case is a lineage shape; every version in and around the declared grid is looked up and every navigation step is compared with the reference list; non-trivial: more than one schema",
		Gen:  genC09,
	})
	register(&Prop{
		ID:   "C12",
		Rule: "a case is a pair of lineages (every ordered pair of single-schema lineages over the body alphabet; every pair of body sequences up to length 3; joinSchema pairs); the verdict is compared with the prefix relation; non-trivial: lineages differ",
		Gen:  genC12,
	})
	register(&Prop{
		ID:   "C13",
		Rule: "a case is a first character; all strings over the alphabet up to the bound are parsed; plus all pairs and triples of a version grid for the order; non-trivial: the string contains a dot",
		Gen:  genC13,
	})
}

var anyBodies = []namedTy{
	{"A", st(req("a", tString))},
	{"AB", st(req("a", tString), opt("b", tInt))},
	{"Z", st(req("z", tInt))},
	{"AI", st(req("a", tInt))},
	{"Ab", st(req("a", tString), req("b", tInt))},
	{"O", Struct{F: []Field{req("a", tString)}, Open: true}},
	{"D", st(req("a", Def{"s", tString}), opt("c", tBool))},
	{"E", st(opt("z", tInt), opt("b", tString))},
}

func numbering(steps []int) [][2]int {
	vs := [][2]int{{0, 0}}
	for _, s := range steps {
		p := vs[len(vs)-1]
		if s == 0 {
			vs = append(vs, [2]int{p[0], p[1] + 1})
		} else {
			vs = append(vs, [2]int{p[0] + 1, 0})
		}
	}
	return vs
}

func genC04(g *Gen) {
	var data []any
	for _, a := range []any{absent, "s", Num("1")} {
		for _, b := range []any{absent, Num("1"), "t"} {
			for _, c := range []any{absent, true} {
				for _, z := range []any{absent, Num("1")} {
					d := map[string]any{}
					for k, v := range map[string]any{"a": a, "b": b, "c": c, "z": z} {
						if v != absent {
							d[k] = v
						}
					}
					data = append(data, d)
				}
			}
		}
	}
	data = append(data, nil, "s", Num("1"), arr(), arr(obj("a", "s")), true)
	one := func(bi []int, vs [][2]int) {
		key := ""
		for i := range bi {
			key += fmt.Sprintf("%s:%s ", vstr(vs[i]), anyBodies[bi[i]].Name)
		}
		g.Case(key, func(t *T) {
			spec := LinSpec{Name: "lin", NoLens: true}
			for i := range bi {
				spec.Schemas = append(spec.Schemas, SchSpec{V: vs[i], Body: anyBodies[bi[i]].T.cue()})
			}
			lin := mustBind(t, spec, thema.SkipBuggyChecks())
			all := lin.All()
			check := func(k int) {
				d := data[k]
				want := -1
				for i := range bi {
					if _, ok := accept(anyBodies[bi[i]].T, d); ok {
						want = i
						break
					}
				}
				inst := lin.ValidateAny(mkdata(t.RT(), d))
				t.Step()
				t.State(lit(d))
				t.Checked(fmt.Sprintf("first=%d of %d", want, len(bi)), want >= 0)
				if want < 0 {
					if inst != nil {
						t.Fail("data "+lit(d), "accepted by schema %s, expected none", inst.Schema().Version())
					}
					return
				}
				if inst == nil {
					t.Fail("data "+lit(d), "no schema found, expected %s", vstr(vs[want]))
					return
				}
				if inst.Schema() != all[want] {
					t.Fail("data "+lit(d), "chose %s, the oldest valid is %s", inst.Schema().Version(), vstr(vs[want]))
				}
				if got := valueOf(inst.Underlying()); got != lit(d) {
					t.Fail("data "+lit(d), "instance holds %s", got)
				}
			}
			for k := range data {
				check(k)
			}
			for k := len(data) - 1; k >= 0; k-- {
				check(k)
			}
			t.Sample("%s", spec.cue())
		})
	}
	for n := 1; n <= 3; n++ {
		forSeq(n, len(anyBodies), func(bi []int) {
			forSeq(n-1, 2, func(steps []int) {
				one(bi, numbering(steps))
			})
		})
	}
	n := 4
	k := 4
	if g.Thorough() {
		k = len(anyBodies)
	}
	forSeq(n, k, func(bi []int) {
		forSeq(n-1, 2, func(steps []int) {
			if !g.Thorough() && steps[0] == steps[2] {
				return
			}
			one(bi, numbering(steps))
		})
	})
	// long lineages: the only accepting schema at every position
	for _, n := range []int{6, 9} {
		for at := 0; at < n; at++ {
			n, at := n, at
			g.Case(fmt.Sprintf("long n=%d at=%d", n, at), func(t *T) {
				spec := LinSpec{Name: "lin", NoLens: true}
				for i := 0; i < n; i++ {
					spec.Schemas = append(spec.Schemas, SchSpec{V: [2]int{i, 0}, Body: fmt.Sprintf("{f%d: int}", i)})
				}
				lin := mustBind(t, spec)
				inst := lin.ValidateAny(mkdata(t.RT(), obj(fmt.Sprintf("f%d", at), Num("1"))))
				t.Step()
				t.State()
				t.Checked("long", true)
				if inst == nil || inst.Schema() != lin.All()[at] {
					t.Fail("at", "wrong schema")
				}
			})
		}
	}
}

// ---- C07

type goCall struct{ from, to [2]int }

var errSentinel = errors.New("mapper sentinel error")

// goLenses makes recording mappers implementing the reference lens semantics.
type goLenses struct {
	t     *T
	l     trLin
	calls []goCall
	// fault at this pair
	fault    string
	fat      [2][2]int
	badArgs  string
	allSch   func() []thema.Schema
	lenses   []thema.ImperativeLens
	mkReturn func(a, b [2]int, inst *thema.Instance, to thema.Schema) (*thema.Instance, error)
}

func newGoLenses(t *T, l trLin) *goLenses {
	gl := &goLenses{t: t, l: l}
	for _, p := range lensPairs(l.vs) {
		a, b := p[0], p[1]
		gl.lenses = append(gl.lenses, thema.ImperativeLens{
			From: sv(a), To: sv(b),
			Mapper: func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
				gl.calls = append(gl.calls, goCall{a, b})
				if inst.Schema().Version() != sv(a) || to.Version() != sv(b) {
					gl.badArgs = fmt.Sprintf("mapper %s>%s called with %s and %s", vstr(a), vstr(b), inst.Schema().Version(), to.Version())
				}
				if inst.Schema() != gl.allSch()[indexOf(l.vs, a)] || to != gl.allSch()[indexOf(l.vs, b)] {
					gl.badArgs = "mapper called with schemas that are not the lineage's"
				}
				c, err := canon([]byte(valueOf(inst.Underlying())))
				if err != nil {
					gl.badArgs = "mapper input not concrete: " + err.Error()
					return nil, err
				}
				out := gl.l.step(c.(map[string]any), indexOf(l.vs, a), indexOf(l.vs, b))
				if gl.fault != "" && gl.fat == [2][2]int{a, b} {
					switch gl.fault {
					case "error":
						return nil, errSentinel
					case "error+inst":
						r, _ := to.Validate(mkdata(t.RT(), out))
						return r, errSentinel
					case "nil":
						return nil, nil
					case "same":
						return inst, nil
					case "other":
						// an instance of a version that is neither source nor target
						all := gl.allSch()
						for i := range all {
							if l.vs[i] != a && l.vs[i] != b {
								r, err := all[i].Validate(mkdata(t.RT(), l.data(i, "min")))
								if err != nil {
									panic(err)
								}
								return r, nil
							}
						}
						return inst, nil
					}
				}
				return to.Validate(mkdata(t.RT(), out))
			},
		})
	}
	return gl
}

func genC07(g *Gen) {
	max := 5
	if g.Thorough() {
		max = 6
	}
	for _, shape := range trShapes(max) {
		vs := versionsOf(shape)
		pairs := lensPairs(vs)
		if len(pairs) == 0 {
			continue
		}
		path := func(a, b int) []goCall {
			var out []goCall
			for c := a; c != b; {
				n := c + 1
				if b < a {
					n = c - 1
				}
				if n < c || vs[n][0] != vs[c][0] {
					out = append(out, goCall{vs[c], vs[n]})
				}
				c = n
			}
			return out
		}
		setup := func(t *T) (*goLenses, thema.Lineage) {
			l := trLin{vs: vs, passD: true}
			gl := newGoLenses(t, l)
			spec := l.spec()
			spec.NoLens = true
			lin := mustBind(t, spec, thema.ImperativeLenses(gl.lenses...))
			gl.allSch = lin.All
			return gl, lin
		}
		for _, variant := range trVariants {
			shape, variant := shape, variant
			g.Case(fmt.Sprintf("go shape=%s data=%s", shapeKey(shape), variant), func(t *T) {
				gl, lin := setup(t)
				l := gl.l
				twin := variant == "min" && len(vs) <= 3 || variant == "full" && len(vs) <= 3
				var cueLin thema.Lineage
				if twin {
					cueLin = mustBind(t, l.spec())
				}
				all := lin.All()
				for a := range vs {
					in := l.data(a, variant)
					inst := mustValidate(t, all[a], in)
					for b := range vs {
						gl.calls, gl.badArgs = nil, ""
						got, _, err := inst.Translate(sv(vs[b]))
						t.Step()
						t.State(fmt.Sprint(a, b))
						want := path(a, b)
						t.Checked(fmt.Sprintf("mappers=%d", len(want)), len(want) > 0)
						sig := vstr(vs[a]) + ">" + vstr(vs[b])
						if err != nil {
							t.Fail(sig, "failed: %s", err)
							continue
						}
						if gl.badArgs != "" {
							t.Fail(sig, "%s", gl.badArgs)
						}
						if fmt.Sprint(gl.calls) != fmt.Sprint(want) {
							t.Fail(sig, "mappers called: %v, expected %v", gl.calls, want)
						}
						cur := in
						for c := a; c != b; {
							n := c + 1
							if b < a {
								n = c - 1
							}
							if n < c || vs[n][0] != vs[c][0] {
								cur = l.step(cur, c, n)
							}
							c = n
						}
						fillCheck(t, sig, l, got, all[b], b, cur)
						if inst.Schema() != all[a] || valueOf(inst.Underlying()) != lit(in) {
							t.Fail(sig, "translation changed its input instance")
						}
						if twin {
							ci := mustValidate(t, cueLin.All()[a], in)
							cg, _, err := ci.Translate(sv(vs[b]))
							t.Step()
							if err != nil {
								t.Fail(sig+" twin", "CUE twin failed: %s", err)
								continue
							}
							fa, oka := fillOf(l, b, got)
							fb, okb := fillOf(l, b, cg)
							if !oka || !okb || fa != fb {
								t.Fail(sig+" twin", "Go lenses give %s, CUE lenses give %s", fa, fb)
							}
						}
						if b == a+1 {
							gl.calls = nil
							s, _, err := inst.AsSuccessor()
							t.Step()
							if err != nil || fmt.Sprint(gl.calls) != fmt.Sprint(want) {
								t.Fail(sig+" succ", "err %v calls %v", err, gl.calls)
							} else {
								fillCheck(t, sig+" succ", l, s, all[b], b, cur)
							}
						}
						if b == a-1 {
							gl.calls = nil
							s, _, err := inst.AsPredecessor()
							t.Step()
							if err != nil || fmt.Sprint(gl.calls) != fmt.Sprint(want) {
								t.Fail(sig+" pred", "err %v calls %v", err, gl.calls)
							} else {
								fillCheck(t, sig+" pred", l, s, all[b], b, cur)
							}
						}
					}
				}
				t.Sample("shape %s variant %s", shapeKey(shape), variant)
			})
		}
		for pi := range pairs {
			for _, fault := range []string{"error", "error+inst", "nil", "same", "other"} {
				shape, pi, fault := shape, pi, fault
				g.Case(fmt.Sprintf("gofault shape=%s lens=%s>%s %s", shapeKey(shape), vstr(pairs[pi][0]), vstr(pairs[pi][1]), fault), func(t *T) {
					gl, lin := setup(t)
					l := gl.l
					all := lin.All()
					for a := range vs {
						in := l.data(a, "full")
						inst := mustValidate(t, all[a], in)
						for b := range vs {
							want := path(a, b)
							hit := -1
							for i, c := range want {
								if c.from == pairs[pi][0] && c.to == pairs[pi][1] {
									hit = i
								}
							}
							gl.fault, gl.fat = fault, pairs[pi]
							gl.calls, gl.badArgs = nil, ""
							got, _, err := inst.Translate(sv(vs[b]))
							t.Step()
							t.State(fmt.Sprint(a, b))
							t.Checked(fmt.Sprintf("%s hit=%v err=%v", fault, hit >= 0, err != nil), hit >= 0)
							sig := vstr(vs[a]) + ">" + vstr(vs[b])
							if gl.badArgs != "" {
								t.Fail(sig, "%s", gl.badArgs)
							}
							if hit < 0 {
								if err != nil {
									t.Fail(sig, "failed without any fault on the path: %s", err)
								}
								continue
							}
							if err == nil {
								t.Fail(sig, "fault went unreported, result %s@%s", valueOf(got.Underlying()), got.Schema().Version())
								continue
							}
							if got != nil {
								t.Fail(sig, "instance returned together with an error")
							}
							if !errors.Is(err, terrors.ErrInvalidLens) {
								t.Fail(sig, "error is not ErrInvalidLens: %v", err)
							}
							if strings.HasPrefix(fault, "error") && !errors.Is(err, errSentinel) {
								t.Fail(sig, "the mapper's error is not in the chain: %v", err)
							}
							if fmt.Sprint(gl.calls) != fmt.Sprint(want[:hit+1]) {
								t.Fail(sig, "mappers called: %v, expected %v", gl.calls, want[:hit+1])
							}
							// the fault leaves nothing behind
							gl.fault = ""
							if _, _, err := inst.Translate(sv(vs[b])); err != nil {
								t.Fail(sig+" after", "still failing after the fault was removed: %s", err)
							}
							t.Step()
						}
					}
				})
			}
		}
	}
}

func fillOf(l trLin, i int, inst *thema.Instance) (string, bool) {
	c, err := canon([]byte(valueOf(inst.Underlying())))
	if err != nil {
		return err.Error(), false
	}
	f, ok := accept(l.joined(i), c)
	if !ok {
		return lit(c), false
	}
	return lit(f), true
}

// fillCheck compares modulo the filling in of schema defaults.
func fillCheck(t *T, sig string, l trLin, inst *thema.Instance, sch thema.Schema, i int, want map[string]any) {
	if inst == nil {
		t.Fail(sig, "nil instance without error")
		return
	}
	if inst.Schema() != sch {
		t.Fail(sig, "instance is of schema %s, expected %s", inst.Schema().Version(), sch.Version())
		return
	}
	w, ok := accept(l.joined(i), want)
	if !ok {
		panic("harness: reference invalid")
	}
	f, ok := fillOf(l, i, inst)
	if !ok || f != lit(w) {
		t.Fail(sig, "data is %s, expected %s", f, lit(w))
	}
}

// ---- C08

var (
	reasonRel  = regexp.MustCompile(`([0-9.]+) -> ([0-9.]+) \(([0-9.]+) is (predecessor|successor) of ([0-9.]+), not ([0-9.]+)\)`)
	reasonGone = regexp.MustCompile(`([0-9.]+) -> ([0-9.]+) \(schema version ([0-9.]+) does not exist\)`)
	reasonAuto = regexp.MustCompile(`([0-9.]+) -> ([0-9.]+) \(minor version upgrades`)
	reasonPair = regexp.MustCompile(`([0-9.]+) -> ([0-9.]+)`)
)

// reasonSelf tells whether a line is about a lens from a version to itself.
func reasonSelf(line string) bool {
	m := reasonPair.FindStringSubmatch(line)
	return m != nil && m[1] == m[2]
}

func genC08(g *Gen) {
	max := 4
	if g.Thorough() {
		max = 5
	}
	nop := func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
		return to.Validate(inst.Underlying())
	}
	for _, shape := range trShapes(max) {
		vs := versionsOf(shape)
		need := lensPairs(vs)
		needSet := map[[2][2]int]bool{}
		for _, p := range need {
			needSet[p] = true
		}
		outside := [][2]int{{vs[len(vs)-1][0], vs[len(vs)-1][1] + 1}, {vs[len(vs)-1][0] + 1, 0}, {7, 7}}
		var extras [][2][2]int
		cand := append(append([][2]int{}, vs...), outside...)
		for _, x := range cand {
			for _, y := range cand {
				p := [2][2]int{x, y}
				if !needSet[p] {
					extras = append(extras, p)
				}
			}
		}
		// lens: pair, plus nil-mapper flag
		type gl struct {
			p   [2][2]int
			nil bool
		}
		one := func(name string, set []gl, split bool) {
			key := fmt.Sprintf("shape=%s %s", shapeKey(shape), name)
			g.Case(key, func(t *T) {
				have := map[[2][2]int]int{}
				var lenses []thema.ImperativeLens
				nils, dups := false, false
				for _, x := range set {
					have[x.p]++
					dups = dups || have[x.p] > 1
					m := nop
					if x.nil {
						m, nils = nil, true
					}
					lenses = append(lenses, thema.ImperativeLens{From: sv(x.p[0]), To: sv(x.p[1]), Mapper: m})
				}
				missing, extra := false, false
				for _, p := range need {
					missing = missing || have[p] == 0
				}
				for p := range have {
					extra = extra || !needSet[p]
				}
				if len(set) == 0 {
					missing = false // no Go lenses at all: not a Go lens set
				}
				want := !missing && !extra && !nils && !dups
				l := trLin{vs: vs}
				spec := l.spec()
				spec.NoLens = true
				var opts []thema.BindOption
				if split && len(lenses) > 1 {
					opts = append(opts, thema.ImperativeLenses(lenses[:1]...), thema.ImperativeLenses(lenses[1:]...))
				} else {
					opts = append(opts, thema.ImperativeLenses(lenses...))
				}
				lin, err := bindText(t.RT(), spec.cue(), opts...)
				t.Step()
				t.State()
				t.Checked(fmt.Sprintf("missing=%v extra=%v nil=%v dup=%v", missing, extra, nils, dups), !want)
				t.Sample("%s => accepted=%v", key, want)
				if want != (err == nil) {
					t.Fatal("verdict", "expected accepted=%v, got err=%v; lenses %v needed %v", want, err, set, need)
				}
				if err == nil {
					return
				}
				if lin != nil {
					t.Fail("lin-on-error", "non-nil lineage with error")
				}
				isM, isE := errors.Is(err, terrors.ErrMissingLenses), errors.Is(err, terrors.ErrErroneousLenses)
				if nils || dups {
					if !isM && !isE {
						named := false
						for _, x := range set {
							named = named || (x.nil || have[x.p] > 1) && strings.Contains(err.Error(), vstr(x.p[0])+" -> "+vstr(x.p[1]))
						}
						if !named {
							t.Fail("names", "the error names neither a nil nor a duplicate lens: %v", err)
						}
					}
					return
				}
				if isM && !missing || isE && !extra || !isM && !isE {
					t.Fail("errclass", "missing=%v extra=%v but error is %v", missing, extra, err)
				}
				// The error names exactly the pairs at fault, and what it says of them is true.
				text := err.Error()
				for x := range cand {
					for y := range cand {
						p := [2][2]int{cand[x], cand[y]}
						bad := isM && needSet[p] && have[p] == 0 || isE && !needSet[p] && have[p] > 0
						if named := strings.Contains(text, vstr(p[0])+" -> "+vstr(p[1])); named != bad {
							t.Fail("names", "pair %s -> %s: named=%v at fault=%v: %s", vstr(p[0]), vstr(p[1]), named, bad, text)
						}
					}
				}
				at := map[string]int{}
				for i, v := range vs {
					at[vstr(v)] = i + 1
				}
				for _, line := range strings.Split(text, "\n") {
					if m := reasonRel.FindStringSubmatch(line); m != nil {
						d := at[m[3]] - at[m[5]]
						if m[4] == "successor" {
							d = -d
						}
						if at[m[3]] == 0 || at[m[5]] == 0 || d != -1 || m[3] == m[6] || m[6] != m[2] || m[5] != m[1] {
							t.Fail("reason", "%s", line)
						}
					} else if m := reasonGone.FindStringSubmatch(line); m != nil {
						if at[m[3]] != 0 || m[3] != m[1] && m[3] != m[2] {
							t.Fail("reason", "%s", line)
						}
					} else if m := reasonAuto.FindStringSubmatch(line); m != nil {
						if strings.SplitN(m[1], ".", 2)[0] != strings.SplitN(m[2], ".", 2)[0] {
							t.Fail("reason", "%s", line)
						}
					} else if strings.Contains(line, "(self-migr") != (isE && reasonSelf(line)) {
						t.Fail("reason", "%s", line)
					}
				}
			})
		}
		full := func() []gl {
			var s []gl
			for _, p := range need {
				s = append(s, gl{p: p})
			}
			return s
		}
		n := len(need)
		for m := 0; m < 1<<n; m++ {
			var s []gl
			for i, p := range need {
				if m&(1<<i) != 0 {
					s = append(s, gl{p: p})
				}
			}
			one(fmt.Sprintf("subset %b", m), s, false)
			if m == 1<<n-1 {
				one("split", s, true)
			}
		}
		for ei, e := range extras {
			en := fmt.Sprintf("%s>%s", vstr(e[0]), vstr(e[1]))
			one("extra-last "+en, append(full(), gl{p: e}), false)
			one("extra-first "+en, append([]gl{{p: e}}, full()...), false)
			for i := range need {
				s := full()
				s[i] = gl{p: e}
				one(fmt.Sprintf("swap %d %s", i, en), s, false)
			}
			if ei+1 < len(extras) {
				one("extra2 "+en, append(full(), gl{p: e}, gl{p: extras[ei+1]}), false)
			}
		}
		for i := range need {
			for j := 0; j <= n; j++ {
				s := full()
				s = append(s[:j:j], append([]gl{{p: need[i]}}, s[j:]...)...)
				one(fmt.Sprintf("dup %d at %d", i, j), s, false)
			}
			s := full()
			s[i].nil = true
			one(fmt.Sprintf("nil %d", i), s, false)
		}
		if n <= 4 {
			k := 0
			perms(n, func(pm []int) {
				k++
				if k == 1 {
					return
				}
				var s []gl
				for _, x := range pm {
					s = append(s, gl{p: need[x]})
				}
				one(fmt.Sprintf("perm %v", pm), s, false)
			})
		} else {
			for r := 1; r < n; r++ {
				s := append(full()[r:], full()[:r]...)
				one(fmt.Sprintf("rot %d", r), s, false)
			}
			var s []gl
			for i := n - 1; i >= 0; i-- {
				s = append(s, gl{p: need[i]})
			}
			one("reversed", s, false)
		}
	}
}

// ---- C09

func genC09(g *Gen) {
	max := 7
	if g.Thorough() {
		max = 9
	}
	for _, shape := range trShapes(max) {
		shape := shape
		g.Case("shape="+shapeKey(shape), func(t *T) {
			vs := versionsOf(shape)
			spec := LinSpec{Name: "lin", NoLens: true}
			for i, v := range vs {
				spec.Schemas = append(spec.Schemas, SchSpec{V: v, Body: seqSchemaBody(vs, i)})
			}
			lin := mustBind(t, spec)
			all := lin.All()
			if len(all) != len(vs) {
				t.Fatal("len", "%d schemas, %d declared", len(all), len(vs))
			}
			// the returned list is the caller's
			cp := lin.All()
			for i := range cp {
				cp[i] = nil
			}
			if a2 := lin.All(); len(a2) != len(all) || a2[0] != all[0] || a2[len(a2)-1] != all[len(all)-1] {
				t.Fail("alias", "changing the returned list changed the lineage")
			}
			nt := len(vs) > 1
			chk := func(what string, got thema.Schema, want int) {
				t.Step()
				t.State(what)
				t.Checked(strings.SplitN(what, " ", 2)[0], nt)
				if want < 0 {
					if got != nil {
						t.Fail(what, "got a schema, expected nil")
					}
					return
				}
				if got == nil {
					t.Fail(what, "got nil, expected %s", vstr(vs[want]))
				} else if got != all[want] {
					t.Fail(what, "got %s, expected %s", got.Version(), vstr(vs[want]))
				}
			}
			last := len(vs) - 1
			chk("first", lin.First(), 0)
			chk("latest", lin.Latest(), last)
			if thema.LatestVersion(lin) != sv(vs[last]) {
				t.Fail("LatestVersion", "%s", thema.LatestVersion(lin))
			}
			lastIn := map[int]int{}
			for i, v := range vs {
				lastIn[v[0]] = i
			}
			for i, s := range all {
				if s.Version() != sv(vs[i]) {
					t.Fail("version", "schema %d is %s, expected %s", i, s.Version(), vstr(vs[i]))
				}
				if s.Lineage() != lin {
					t.Fail("lineage", "schema %s reports another lineage", s.Version())
				}
				su, pr := i+1, i-1
				if su > last {
					su = -1
				}
				chk("successor "+vstr(vs[i]), s.Successor(), su)
				chk("predecessor "+vstr(vs[i]), s.Predecessor(), pr)
				chk("latestinmajor "+vstr(vs[i]), s.LatestInMajor(), lastIn[vs[i][0]])
				// walks
				k := 0
				for c := s; c != nil && k <= len(vs); c = c.Successor() {
					chk(fmt.Sprintf("walkup %s+%d", vstr(vs[i]), k), c, i+k)
					k++
				}
				if k != len(vs)-i {
					t.Fail("walkup", "walk from %s visits %d schemas", vstr(vs[i]), k)
				}
				k = 0
				for c := s; c != nil && k <= len(vs); c = c.Predecessor() {
					chk(fmt.Sprintf("walkdown %s-%d", vstr(vs[i]), k), c, i-k)
					k++
				}
				if k != i+1 {
					t.Fail("walkdown", "walk from %s visits %d schemas", vstr(vs[i]), k)
				}
				// the schema under this version has this version's content
				for j := range vs {
					d := map[string]any{fmt.Sprintf("m%d", vs[j][0]): "x"}
					for q := 1; q <= vs[j][1]; q++ {
						d[fmt.Sprintf("o%dx%d", vs[j][0], q)] = Num("1")
					}
					_, err := s.Validate(mkdata(t.RT(), d))
					t.Step()
					want := vs[j][0] == vs[i][0] && vs[j][1] <= vs[i][1]
					if want != (err == nil) {
						t.Fail(fmt.Sprintf("content %s %s", vstr(vs[i]), vstr(vs[j])), "err=%v", err)
					}
				}
			}
			maxv := 0
			for _, n := range shape {
				if n > maxv {
					maxv = n
				}
			}
			var probe []thema.SyntacticVersion
			for a := 0; a <= len(shape)+1; a++ {
				for b := 0; b <= maxv+1; b++ {
					probe = append(probe, thema.SV(uint(a), uint(b)))
				}
			}
			big := ^uint(0)
			probe = append(probe, thema.SV(big, 0), thema.SV(0, big), thema.SV(big, big), thema.SV(1<<32, 0), thema.SV(0, 1<<32))
			for _, v := range probe {
				want := -1
				for i := range vs {
					if sv(vs[i]) == v {
						want = i
					}
				}
				s, err := lin.Schema(v)
				chk("lookup "+v.String(), s, want)
				if (want < 0) != (err != nil) {
					t.Fail("lookup "+v.String(), "err=%v", err)
				}
				if err != nil && !errors.Is(err, terrors.ErrVersionNotExist) {
					t.Fail("lookup "+v.String(), "not ErrVersionNotExist: %v", err)
				}
				func() {
					defer func() {
						if r := recover(); (r != nil) != (want < 0) {
							t.Fail("SchemaP "+v.String(), "panic=%v", r)
						}
					}()
					if p := thema.SchemaP(lin, v); p != s {
						t.Fail("SchemaP "+v.String(), "differs from Schema")
					}
				}()
			}
			for a := 0; a <= len(shape)+1; a++ {
				v, err := thema.LatestVersionInSequence(lin, uint(a))
				t.Step()
				i, ok := lastIn[a]
				if ok != (err == nil) || ok && v != sv(vs[i]) {
					t.Fail(fmt.Sprintf("LatestVersionInSequence %d", a), "%s %v", v, err)
				}
			}
			t.Sample("shape %s", shapeKey(shape))
		})
	}
}

// ---- C12

func genC12(g *Gen) {
	bindOne := func(t *T, bodies []Ty, join string) thema.Lineage {
		spec := LinSpec{Name: "lin", NoLens: true, Join: join}
		for i, b := range bodies {
			spec.Schemas = append(spec.Schemas, SchSpec{V: [2]int{i, 0}, Body: b.cue()})
		}
		return mustBind(t, spec, thema.SkipBuggyChecks())
	}
	check := func(t *T, old, nu thema.Lineage, want bool, ctx string) {
		err := thema.IsAppendOnly(old, nu)
		t.Step()
		t.State()
		t.Checked(fmt.Sprintf("appendonly=%v", want), true)
		if want != (err == nil) {
			t.Fail("verdict", "expected append-only=%v, got %v\n%s", want, err, ctx)
		}
	}
	u := compatUniverse()
	same := map[string]bool{} // every fifth, without those of the known finding (defaults of optional fields)
	for i, p := range u {
		same[p.Name] = i%5 == 0 && !(strings.Contains(p.Name, "?:") && strings.Contains(p.Name, "def"))
	}
	for _, p := range u {
		for _, s := range u {
			p, s := p, s
			g.Case("single "+p.Name+" => "+s.Name, func(t *T) {
				same := p.Name == s.Name
				old, nu := bindOne(t, []Ty{p.T}, ""), bindOne(t, []Ty{s.T}, "")
				check(t, old, nu, same, p.T.cue()+" / "+s.T.cue())
			})
			if !same[p.Name] || !same[s.Name] {
				continue
			}
			// Lineages of two runtimes, again and again.
			g.Case("runtimes "+p.Name+" => "+s.Name, func(t *T) {
				mk := func(b Ty) thema.Lineage {
					spec := LinSpec{Name: "lin", NoLens: true, Schemas: []SchSpec{{V: [2]int{0, 0}, Body: b.cue()}}}
					l, err := bindText(t.FreshRT(), spec.cue(), thema.SkipBuggyChecks())
					if err != nil {
						t.Fatal("bind", "%s", err)
					}
					return l
				}
				old, nu := mk(p.T), mk(s.T)
				for i := 0; i < 2; i++ {
					check(t, old, nu, p.Name == s.Name, p.T.cue()+" / "+s.T.cue())
					check(t, nu, old, p.Name == s.Name, s.T.cue()+" / "+p.T.cue())
				}
			})
		}
	}
	bodies := []namedTy{
		{"A", st(req("a", tString))},
		{"AB", st(req("a", tString), opt("b", tInt))},
		{"Z", st(req("z", tInt))},
		{"A2", st(req("a", tInt))},
	}
	maxn := 3
	var seqs [][]int
	for n := 1; n <= maxn; n++ {
		forSeq(n, len(bodies), func(ix []int) { seqs = append(seqs, ix) })
	}
	for _, a := range seqs {
		for _, b := range seqs {
			if !g.Thorough() && len(a) == 3 && len(b) == 3 {
				diff := 0
				for i := range a {
					if a[i] != b[i] {
						diff++
					}
				}
				if diff > 1 {
					continue
				}
			}
			a, b := a, b
			g.Case(fmt.Sprintf("seq %v => %v", a, b), func(t *T) {
				tys := func(ix []int) (out []Ty) {
					for _, i := range ix {
						out = append(out, bodies[i].T)
					}
					return
				}
				want := len(a) <= len(b)
				for i := 0; want && i < len(a); i++ {
					want = a[i] == b[i]
				}
				check(t, bindOne(t, tys(a), ""), bindOne(t, tys(b), ""), want, "")
				t.Sample("%v => %v append-only=%v", a, b, want)
			})
		}
	}
	// versions: the same bodies under another numbering are not the same schemas
	for n := 2; n <= 3; n++ {
		forSeq(n-1, 2, func(s1 []int) {
			forSeq(n-1, 2, func(s2 []int) {
				g.Case(fmt.Sprintf("numbering %v => %v", s1, s2), func(t *T) {
					mk := func(s []int) thema.Lineage {
						spec := LinSpec{Name: "lin", NoLens: true}
						for i, v := range numbering(s) {
							spec.Schemas = append(spec.Schemas, SchSpec{V: v, Body: bodies[i].T.cue()})
						}
						return mustBind(t, spec, thema.SkipBuggyChecks())
					}
					check(t, mk(s1), mk(s2), fmt.Sprint(s1) == fmt.Sprint(s2), "")
				})
			})
		})
	}
	// one change somewhere in a long published history, in every shape of versions
	changes := []func(k int) Ty{
		func(k int) Ty { return st(req(fmt.Sprintf("f%d", k), tInt)) },
		func(k int) Ty { return st(req(fmt.Sprintf("f%d", k), tString), opt("n", tInt)) },
		func(k int) Ty { return st(req(fmt.Sprintf("f%d", k), Def{"d", tString})) },
		func(k int) Ty { return st(opt(fmt.Sprintf("f%d", k), tString)) },
	}
	maxl := 4
	if g.Thorough() {
		maxl = 6
	}
	for n := 2; n <= maxl; n++ {
		forSeq(n-1, 2, func(steps []int) {
			for m := 1; m <= n; m++ {
				for p := -1; p < n; p++ {
					for ci := range changes {
						if p < 0 && ci > 0 {
							continue
						}
						m, p, ci, n := m, p, ci, n
						g.Case(fmt.Sprintf("history %v old=%d change %d at %d", steps, m, ci, p), func(t *T) {
							mk := func(l, p int) thema.Lineage {
								spec := LinSpec{Name: "lin", NoLens: true}
								for i, v := range numbering(steps)[:l] {
									var b Ty = st(req(fmt.Sprintf("f%d", i), tString))
									if i == p {
										b = changes[ci](i)
									}
									spec.Schemas = append(spec.Schemas, SchSpec{V: v, Body: b.cue()})
								}
								return mustBind(t, spec, thema.SkipBuggyChecks())
							}
							check(t, mk(m, -1), mk(n, p), p < 0 || p >= m, fmt.Sprint(steps))
							if p < 0 && m < n {
								check(t, mk(n, -1), mk(m, -1), false, "shortened")
							}
						})
					}
				}
			}
		})
	}
	// joinSchema is part of every schema
	joins := []string{"", "{j: string}", "{j: int}", "{j: string, k?: int}", "{a: string}"}
	for _, j1 := range joins {
		for _, j2 := range joins {
			for n := 1; n <= 2; n++ {
				for m := n; m <= 2; m++ {
					j1, j2, n, m := j1, j2, n, m
					g.Case(fmt.Sprintf("join %q => %q %d %d", j1, j2, n, m), func(t *T) {
						tys := []Ty{st(req("a", tString)), st(req("a", tString), req("z", tInt))}
						// a joinSchema that adds nothing changes nothing
						norm := func(j string) string {
							if j == "{a: string}" {
								return ""
							}
							return j
						}
						check(t, bindOne(t, tys[:n], j1), bindOne(t, tys[:m], j2), norm(j1) == norm(j2), "")
					})
				}
			}
		}
	}
}

// ---- C13

var reVersion = regexp.MustCompile(`^([0-9]+)\.([0-9]+)$`)

func refParse(s string) (thema.SyntacticVersion, bool) {
	m := reVersion.FindStringSubmatch(s)
	if m == nil {
		return thema.SyntacticVersion{}, false
	}
	var out thema.SyntacticVersion
	for i := 0; i < 2; i++ {
		x := strings.TrimLeft(m[i+1], "0")
		if x == "" {
			x = "0"
		}
		if len(x) > 10 {
			return thema.SyntacticVersion{}, false
		}
		n, _ := strconv.ParseUint(x, 10, 64)
		if n > 4294967295 {
			return thema.SyntacticVersion{}, false
		}
		out[i] = uint(n)
	}
	return out, true
}

func genC13(g *Gen) {
	alpha := []string{"0", "1", "9", ".", "-", "+", " ", "a", "_", "v", "x", "\n", "٣"}
	max := 5
	if g.Thorough() {
		max = 6
	}
	try := func(t *T, s string) {
		want, ok := refParse(s)
		got, err := thema.ParseSyntacticVersion(s)
		t.Step()
		t.State(s)
		t.Checked(fmt.Sprintf("ok=%v dots=%d", ok, strings.Count(s, ".")), strings.Contains(s, "."))
		if ok != (err == nil) {
			t.Fail(fmt.Sprintf("parse %q", s), "expected ok=%v, got %v %v", ok, got, err)
			return
		}
		if got != want {
			t.Fail(fmt.Sprintf("value %q", s), "got %v, expected %v", got, want)
		}
		if err != nil {
			if !errors.Is(err, terrors.ErrMalformedSyntacticVersion) {
				t.Fail(fmt.Sprintf("errclass %q", s), "not ErrMalformedSyntacticVersion: %v", err)
			}
			return
		}
		rt, err := thema.ParseSyntacticVersion(got.String())
		if err != nil || rt != got {
			t.Fail(fmt.Sprintf("roundtrip %q", s), "%v %v", rt, err)
		}
	}
	for _, c := range alpha {
		for _, c2 := range append([]string{""}, alpha...) {
			c, c2 := c, c2
			g.Case(fmt.Sprintf("prefix %q", c+c2), func(t *T) {
				try(t, c+c2)
				if c2 == "" {
					return
				}
				for n := 1; n <= max-2; n++ {
					forSeq(n, len(alpha), func(ix []int) {
						s := c + c2
						for _, i := range ix {
							s += alpha[i]
						}
						try(t, s)
					})
				}
				t.Sample("all strings starting with %q up to %d characters", c+c2, max)
			})
		}
	}
	nums := []string{"", "0", "00", "1", "01", "9", "10", "65535", "4294967295", "4294967296", "04294967295", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "1e3", "0x1", "1_0", " 1", "1 ", "١"}
	for _, a := range nums {
		for _, sep := range []string{".", "..", ",", " .", ". ", ":", "-", ""} {
			a, sep := a, sep
			g.Case(fmt.Sprintf("numbers %q sep %q", a, sep), func(t *T) {
				for _, b := range nums {
					try(t, a+sep+b)
					for _, suf := range []string{".", ".0", "\n", " ", "-rc1"} {
						try(t, a+sep+b+suf)
						try(t, suf+a+sep+b)
					}
				}
			})
		}
	}
	var grid []thema.SyntacticVersion
	edge := []uint{0, 1, 2, 3, 9, 10, 11, 255, 256, 4294967295, 4294967296, ^uint(0) - 1, ^uint(0)}
	for _, a := range edge {
		for _, b := range edge {
			grid = append(grid, thema.SV(a, b))
		}
	}
	for i, a := range grid {
		i, a := i, a
		g.Case(fmt.Sprintf("order %d", i), func(t *T) {
			if a != (thema.SyntacticVersion{a[0], a[1]}) {
				t.Fail("sv", "SV does not build the version")
			}
			if want := strconv.FormatUint(uint64(a[0]), 10) + "." + strconv.FormatUint(uint64(a[1]), 10); a.String() != want {
				t.Fail("string "+want, "prints as %q", a.String())
			}
			for _, b := range grid {
				want := a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
				t.Step()
				t.State(b.String())
				t.Checked(fmt.Sprintf("less=%v", want), a != b)
				if a.Less(b) != want {
					t.Fail(fmt.Sprintf("less %s %s", a, b), "got %v", !want)
				}
				for _, c := range grid {
					if a.Less(b) && b.Less(c) && !a.Less(c) {
						t.Fail(fmt.Sprintf("trans %s %s %s", a, b, c), "not transitive")
					}
				}
			}
		})
	}
}
