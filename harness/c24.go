package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "a case is a history: a sequence of operations (valid and failing binds, validations, translations, hydration, typed bindings, muxes, encoders, navigation) on one shared runtime, lineage and instance set, up to the depth bound; " +
			"every step's complete result is compared with the same operation alone on fresh state; non-trivial: the step has a predecessor",
		Gen: genC24,
	})
}

func genC24(g *Gen) {
	ops := opsAlphabet()
	alone := map[string]string{}
	ref := func(i int) string {
		n := ops[i].name
		if r, ok := alone[n]; ok {
			return r
		}
		r := ops[i].do(newWorld())
		alone[n] = r
		return r
	}
	hist := func(seq []int) {
		var ns []string
		for _, i := range seq {
			ns = append(ns, ops[i].name)
		}
		seq = append([]int{}, seq...)
		g.Case(strings.Join(ns, " "), func(t *T) {
			w := newWorld()
			for k, i := range seq {
				want := ref(i)
				if strings.HasPrefix(want, "PANIC") || strings.HasPrefix(want, "SETUP") {
					t.Fail(fmt.Sprintf("alone %s", ops[i].name), "operation alone fails: %s", want)
				}
				got := ops[i].do(w)
				t.Step()
				t.State(fmt.Sprint(k))
				t.Checked(ops[i].name, k > 0)
				if got != want {
					t.Fail(fmt.Sprintf("step %d %s", k, ops[i].name), "after %s, %s gives\n  %s\nbut alone\n  %s", strings.Join(ns[:k], " "), ops[i].name, got, want)
				}
			}
			t.Sample("history %s", strings.Join(ns, " "))
		})
	}
	n := len(ops)
	depth := 2
	for d := 1; d <= depth; d++ {
		forSeq(d, n, hist)
	}
	// repetition: each operation many times, then each other once
	for i := 0; i < n; i++ {
		seq := []int{i, i, i, i, i}
		for j := 0; j < n; j++ {
			seq = append(seq, j)
		}
		hist(seq)
	}
	// all operations in order and reversed, twice
	var fw, bw []int
	for i := 0; i < n; i++ {
		fw = append(fw, i)
		bw = append(bw, n-1-i)
	}
	hist(append(append([]int{}, fw...), bw...))
	hist(append(append([]int{}, bw...), fw...))
	// depth 3 over the operations without code generators
	var core []int
	for i, o := range ops {
		switch o.name {
		case "encodeOther", "bindTypeOther", "gotypes", "typescript", "jsonschema", "openapi", "muxInvalid", "bindTypeBad", "assignable", "examples", "appendOnly", "navigate":
			continue
		}
		if !g.Thorough() {
			switch o.name {
			case "validOther", "bindNoName", "invalidMissing", "invalidExtra", "translateMinor", "translateGoBack", "muxValue", "newT", "validateAnyNone", "successor", "validNew", "bindGoIncomplete":
				continue
			}
		}
		core = append(core, i)
	}
	forSeq(3, len(core), func(ix []int) {
		hist([]int{core[ix[0]], core[ix[1]], core[ix[2]]})
	})
	if g.Thorough() {
		forSeq(4, 10, func(ix []int) {
			hist([]int{core[ix[0]*2%len(core)], core[ix[1]*2%len(core)], core[ix[2]*2%len(core)], core[ix[3]*2%len(core)]})
		})
	}
}
