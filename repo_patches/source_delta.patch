From ee36eaf413542e87397244ff479059343a644562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 01/56] fix: reject lineages whose schema versions are not in
 sequence from 0.0

BindLineage accepted duplicate versions, gaps in the version sequence, and
lineages not starting at 0.0. Such lineages break every operation that relies
on the documented numbering (navigation and translation panic or fail).
---
 bind.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bind.go b/bind.go
index 572cfc3..103977a 100644
--- a/bind.go
+++ b/bind.go
@@ -111,6 +111,22 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
+	return ml.checkVersionSequence()
+}
+
+// checkVersionSequence checks that the lineage starts at 0.0, and that each
+// schema has exactly the version that follows from that of its predecessor.
+func (ml *maybeLineage) checkVersionSequence() error {
+	for i, sch := range ml.schlist {
+		expect := []SyntacticVersion{synv()}
+		if i > 0 {
+			prev := ml.schlist[i-1].v
+			expect = []SyntacticVersion{synv(prev[0], prev[1]+1), synv(prev[0]+1, 0)}
+		}
+		if sch.v != expect[0] && sch.v != expect[len(expect)-1] {
+			return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "schema version %s is out of sequence, expected one of %s", sch.v, expect), terrors.ErrInvalidLineage)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 6403631da94d7ac973034c35ecf6305afa9133f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 02/56] fix: count minor versions correctly in lineages with
 four or more majors

The positions of the first schemas of each major were summed rather than
subtracted pairwise, so lineages with four majors mistranslated, and lineages
with five failed to bind.
---
 lineage.cue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..aec8c2c 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,7 +123,7 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - idx
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
-- 
2.43.0


From 0481870407edb26d07eea1acf2865d7df471f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 03/56] fix: LatestInMajor returns the latest schema of the
 same major

It returned the first schema of the following major, and panicked for schemas
in the last major of the lineage.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..484822f 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,7 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From 13dc0e9560708e7adbddc79649c169bb4361db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 04/56] fix: key examples by their declared name

Example names that are not CUE identifiers were returned in quoted form.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 484822f..2a7dc0a 100644
--- a/schema.go
+++ b/schema.go
@@ -46,7 +46,7 @@ func (sch *schemaDef) Examples() map[string]*Instance {
 
 	examples := make(map[string]*Instance)
 	for it.Next() {
-		label := it.Selector().String()
+		label := it.Label()
 		examples[label] = &Instance{
 			valid: true,
 			raw:   it.Value(),
-- 
2.43.0


From 5f0deadf8b471db2d3d0273769ecf17e7a88160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:11 +0000
Subject: [PATCH 05/56] fix: translation no longer falls back to the
 untranslated input

When a lens could not be evaluated - for example because it refers to a field
for which the instance relies on its schema's default - the original input was
silently returned as if it were the translated result, provided it happened to
be valid for the target schema. Give lenses input in which the defaults are
resolved, one schema at a time, and report failed lenses. As documented, all
errors returned are children of ErrInvalidLens.
---
 instance.go   | 57 ++++++++++++++++++++++++++++++++++++++++-----------
 translate.cue |  2 +-
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..5be9fe1 100644
--- a/instance.go
+++ b/instance.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"cuelang.org/go/cue"
+	"cuelang.org/go/cue/ast"
 	cerrors "cuelang.org/go/cue/errors"
 	"cuelang.org/go/pkg/encoding/json"
 	"github.com/cockroachdb/errors"
@@ -211,15 +212,34 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 		return i.translateGo(to)
 	}
 
-	// TODO define this in terms of AsSuccessor and AsPredecessor, rather than those in terms of this.
-	newsch, err := i.Schema().Lineage().Schema(to)
-	if err != nil {
+	if _, err := i.Schema().Lineage().Schema(to); err != nil {
 		panic(fmt.Sprintf("no schema in lineage with version %v, cannot translate", to))
 	}
 
+	// Walk the lineage one schema at a time. The output of each lens must be made
+	// concrete before it is passed to the next one: left unresolved, differing
+	// defaults for the same field in successive schemas conflict with one another.
+	inst, lac := i, make(multiTranslationLacunas, 0)
+	for inst.Schema().Version() != to {
+		nsch := inst.Schema().Successor()
+		if to.Less(inst.Schema().Version()) {
+			nsch = inst.Schema().Predecessor()
+		}
+
+		next, err := inst.translateStep(nsch)
+		if err != nil {
+			return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
+		}
+		inst = next
+	}
+	return inst, lac, nil
+}
+
+// translateStep translates the instance to a schema adjacent to its own.
+func (i *Instance) translateStep(newsch Schema) (*Instance, error) {
 	out, err := cueArgs{
-		"inst": i.raw,
-		"to":   to,
+		"inst": i.resolved(),
+		"to":   newsch.Version(),
 		"from": i.Schema().Version(),
 		"lin":  i.Schema().Lineage().Underlying(),
 	}.call("#Translate", i.rt())
@@ -229,12 +249,9 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	}
 
 	if out.Err() != nil {
-		return nil, nil, errors.Mark(out.Err(), terrors.ErrInvalidLens)
+		return nil, out.Err()
 	}
 
-	lac := make(multiTranslationLacunas, 0)
-	out.LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&lac)
-
 	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
 	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
 	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
@@ -242,15 +259,31 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
 	}
 
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+	}
+
+	return inst, nil
+}
+
+// resolved returns the data contained in the instance, with concrete values for
+// all the fields that its schema guarantees to exist. Lenses may refer to any of
+// them, whether or not the original input relied on the schema's defaults.
+func (i *Instance) resolved() cue.Value {
+	i.rt().l()
+	defer i.rt().u()
+
+	full := i.Schema().Underlying().LookupPath(pathSchDef).Unify(i.raw)
+	expr, ok := full.Syntax(cue.Final(), cue.Concrete(true)).(ast.Expr)
+	if !ok {
+		return i.raw
 	}
-	return inst, lac, err
+	return i.raw.Context().BuildExpr(expr)
 }
 
 func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacunas, error) {
diff --git a/translate.cue b/translate.cue
index c92e5e3..7be884e 100644
--- a/translate.cue
+++ b/translate.cue
@@ -38,7 +38,7 @@ import "list"
 		result: {
 			from:   FV
 			to:     TV
-			result: *steps[len(steps)-1].result | I
+			result: [ if len(steps) > 0 {steps[len(steps)-1].result}, I][0]
 		}
 	}
 	out: {
-- 
2.43.0


From 45db5aaa478af2faf19cc3782d14bea27a3ffe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:11 +0000
Subject: [PATCH 06/56] fix: return the lacunas emitted by lenses

Translating through a lens that emitted a lacuna always failed with a reference
to a nonexistent field, and lacunas were looked up in a place where they never
are.
---
 instance.go   | 22 ++++++++++++++++++----
 lacuna.go     | 17 +++++++++++++++++
 translate.cue |  4 ++--
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/instance.go b/instance.go
index 5be9fe1..4a8ed25 100644
--- a/instance.go
+++ b/instance.go
@@ -226,7 +226,7 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 			nsch = inst.Schema().Predecessor()
 		}
 
-		next, err := inst.translateStep(nsch)
+		next, err := inst.translateStep(nsch, &lac)
 		if err != nil {
 			return nil, nil, errors.Mark(err, terrors.ErrInvalidLens)
 		}
@@ -235,8 +235,9 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	return inst, lac, nil
 }
 
-// translateStep translates the instance to a schema adjacent to its own.
-func (i *Instance) translateStep(newsch Schema) (*Instance, error) {
+// translateStep translates the instance to a schema adjacent to its own,
+// appending any lacunas emitted on the way to lac.
+func (i *Instance) translateStep(newsch Schema, lac *multiTranslationLacunas) (*Instance, error) {
 	out, err := cueArgs{
 		"inst": i.resolved(),
 		"to":   newsch.Version(),
@@ -268,6 +269,17 @@ func (i *Instance) translateStep(newsch Schema) (*Instance, error) {
 		return nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
 	}
 
+	// Only steps through an explicit lens emit lacunas
+	var stepLac []Lacuna
+	lacv := out.LookupPath(cue.MakePath(cue.Str("steps"), cue.Index(0), cue.Str("lacunas")))
+	if lacv.Exists() {
+		if err := lacv.Decode(&stepLac); err != nil {
+			return nil, errors.Mark(fmt.Errorf("lens produced invalid lacunas: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		}
+	}
+	if len(stepLac) > 0 {
+		*lac = append(*lac, translationLacuna{V: newsch.Version(), Lac: stepLac})
+	}
 	return inst, nil
 }
 
@@ -337,7 +349,9 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 	return ti, nil, nil
 }
 
-type multiTranslationLacunas []struct {
+type multiTranslationLacunas []translationLacuna
+
+type translationLacuna struct {
 	V   SyntacticVersion `json:"v"`
 	Lac []Lacuna         `json:"lacunas"`
 }
diff --git a/lacuna.go b/lacuna.go
index ebbb62d..3a910fd 100644
--- a/lacuna.go
+++ b/lacuna.go
@@ -1,5 +1,7 @@
 package thema
 
+import "encoding/json"
+
 // TranslationLacunas defines common patterns for unary and composite lineages
 // in the lacunas their translations emit.
 type TranslationLacunas interface {
@@ -47,6 +49,21 @@ type Lacuna struct {
 // FIXME this is a terrible way of doing this and needs to change
 type LacunaType uint16
 
+// UnmarshalJSON accepts both the plain numeric identifier, and the form in which
+// the identifier is declared by the #LacunaType CUE definition.
+func (lt *LacunaType) UnmarshalJSON(b []byte) error {
+	var def struct {
+		ID uint16 `json:"id"`
+	}
+	if err := json.Unmarshal(b, &def.ID); err != nil {
+		if err := json.Unmarshal(b, &def); err != nil {
+			return err
+		}
+	}
+	*lt = LacunaType(def.ID)
+	return nil
+}
+
 // FieldRef identifies a path/field and the value in it within a Lacuna.
 type FieldRef struct {
 	Path  string      `json:"path"`
diff --git a/translate.cue b/translate.cue
index 7be884e..d5547db 100644
--- a/translate.cue
+++ b/translate.cue
@@ -72,7 +72,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +115,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From 936dc8c252930b59cc9f13b924ace29e3631a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:39 +0000
Subject: [PATCH 07/56] fix: report a detail for every validation failure

Data with undeclared fields, among others, was rejected with an error that had
an empty message.
---
 validate.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/validate.go b/validate.go
index c4bfdf9..5607e8e 100644
--- a/validate.go
+++ b/validate.go
@@ -124,6 +124,10 @@ func mungeValidateErr(err error, sch Schema) error {
 
 		msg, vals := ee.Msg()
 		switch len(vals) {
+		case 0:
+			// e.g. excess fields, which are identified by the path alone
+			errs = append(errs, fmt.Errorf("%s: validation failed, data is not an instance:\n\t%s", x, msg))
+			continue
 		case 1:
 			val, ok := vals[0].(string)
 			if !ok {
@@ -211,6 +215,10 @@ func mungeValidateErr(err error, sch Schema) error {
 			continue
 		}
 	}
+	if len(errs) == 0 {
+		// No recognizable errors. Report the original one rather than nothing at all
+		errs = append(errs, err)
+	}
 	return errs
 }
 
-- 
2.43.0


From 2f1d6a386237f0a16ce0e5a1a1e5d1a13c2ed805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:29 +0000
Subject: [PATCH 08/56] fix: report an error when there is no successor or
 predecessor to translate to

---
 instance.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index 4a8ed25..7cbd2e9 100644
--- a/instance.go
+++ b/instance.go
@@ -99,25 +99,38 @@ func (i *Instance) Dehydrate() *Instance {
 
 // AsSuccessor translates the instance into the form specified by the successor
 // schema.
+//
+// If the instance's schema is the latest in its lineage, the returned error is
+// [terrors.ErrVersionNotExist].
 func (i *Instance) AsSuccessor() (*Instance, TranslationLacunas, error) {
 	i.check()
 	// If it's a minor version upgrade, we can safely shortcut and just create
 	// a new instance
 	nsch := i.Schema().Successor()
+	if nsch == nil {
+		return nil, nil, errors.Mark(errors.Newf("schema %s has no successor in lineage %s", i.Schema().Version(), i.Schema().Lineage().Name()), terrors.ErrVersionNotExist)
+	}
 	if nsch.Version()[0] == i.Schema().Version()[0] {
 		ni := new(Instance)
 		*ni = *i
 		ni.sch = nsch
 		return ni, nil, nil
 	}
-	return i.Translate(i.sch.Successor().Version())
+	return i.Translate(nsch.Version())
 }
 
 // AsPredecessor translates the instance into the form specified by the predecessor
 // schema.
+//
+// If the instance's schema is the first in its lineage, the returned error is
+// [terrors.ErrVersionNotExist].
 func (i *Instance) AsPredecessor() (*Instance, TranslationLacunas, error) {
 	i.check()
-	return i.Translate(i.sch.Predecessor().Version())
+	psch := i.Schema().Predecessor()
+	if psch == nil {
+		return nil, nil, errors.Mark(errors.Newf("schema %s has no predecessor in lineage %s", i.Schema().Version(), i.Schema().Lineage().Name()), terrors.ErrVersionNotExist)
+	}
+	return i.Translate(psch.Version())
 }
 
 // Underlying returns the cue.Value representing the data contained in the Instance.
-- 
2.43.0


From f8852eb80d3239519ddcfbb53a222685677f6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:47 +0000
Subject: [PATCH 09/56] fix: mark errors from Go lenses as ErrInvalidLens

---
 instance.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index 7cbd2e9..5b98758 100644
--- a/instance.go
+++ b/instance.go
@@ -337,16 +337,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			mlid := lid(sch.Version(), nsch.Version())
 			rti, err = lensmap[mlid].Mapper(ti, nsch)
 			if err != nil {
-				return nil, nil, fmt.Errorf("error executing %s migration: %w", mlid, err)
+				return nil, nil, errors.Mark(fmt.Errorf("error executing %s migration: %w", mlid, err), terrors.ErrInvalidLens)
 			}
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
 			if rti == nil {
-				return nil, nil, fmt.Errorf("lens returned a nil instance")
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned a nil instance"), terrors.ErrInvalidLens)
 			}
 			if rti.Schema().Version() != nsch.Version() {
-				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
+				return nil, nil, errors.Mark(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()), terrors.ErrInvalidLens)
 			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
-- 
2.43.0


From e37b9c58c4697794f10023e87beadec7a8e97056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 10/56] fix: IsAppendOnly reports changes of version or
 joinSchema

---
 lineage.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lineage.go b/lineage.go
index 6511269..45a788b 100644
--- a/lineage.go
+++ b/lineage.go
@@ -312,6 +312,15 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 		if err := cuetil.Equal(x, y); err != nil {
 			return err
 		}
+
+		// The same declaration is a different schema if the lineage's joinSchema or
+		// its version number has changed.
+		if err := cuetil.Equal(oldSchema.LookupPath(pathSchDef), newSchema.LookupPath(pathSchDef)); err != nil {
+			return err
+		}
+		if newSchemas[i].Version() != schema.Version() {
+			return fmt.Errorf("schema version %s can't be changed to %s once published", schema.Version(), newSchemas[i].Version())
+		}
 	}
 
 	return nil
-- 
2.43.0


From 658df51e4380aa2c0117950b21fbdd2f2a506412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 11/56] fix: hydrate and dehydrate against the schema itself

---
 hydrate.go  | 68 ++++-------------------------------------------------
 instance.go | 11 ++-------
 2 files changed, 6 insertions(+), 73 deletions(-)

diff --git a/hydrate.go b/hydrate.go
index 1115309..e30d331 100644
--- a/hydrate.go
+++ b/hydrate.go
@@ -8,68 +8,6 @@ import (
 	cuejson "cuelang.org/go/pkg/encoding/json"
 )
 
-// TODO clean up signature to only return cue.Value
-func doHydrate(sch, data cue.Value) (cue.Value, error) {
-	switch sch.IncompleteKind() {
-	case cue.ListKind:
-		// if list element exist
-		ele := sch.LookupPath(cue.MakePath(cue.AnyIndex))
-
-		// if data is not a concrete list, we must have list elements exist to be used to trim defaults
-		if ele.Exists() {
-			if ele.IncompleteKind() == cue.BottomKind {
-				panic("unreachable")
-			}
-			iter, err := data.List()
-			if err != nil {
-				panic("unreachable - kind was list")
-			}
-			var iterlist []cue.Value
-			for iter.Next() {
-				ref, err := getBranch(ele, iter.Value())
-				if err != nil {
-					return data, err
-				}
-				re, err := doHydrate(iter.Value(), ref)
-				if err == nil {
-					iterlist = append(iterlist, re)
-				}
-			}
-			liInstance := sch.Context().NewList(iterlist...)
-			if liInstance.Err() != nil {
-				return data, liInstance.Err()
-			}
-			return liInstance, nil
-		}
-		return data.Unify(sch), nil
-	case cue.StructKind:
-		iter, err := sch.Fields(cue.Optional(true))
-		if err != nil {
-			return data, err
-		}
-		for iter.Next() {
-			label, _ := iter.Value().Label()
-			lv := data.LookupPath(cue.MakePath(cue.Str(label)))
-			if err != nil {
-				continue
-			}
-			if lv.Exists() {
-				res, err := doHydrate(lv, iter.Value())
-				if err != nil {
-					continue
-				}
-				data = data.FillPath(cue.MakePath(cue.Str(label)), res)
-			} else if !iter.IsOptional() {
-				data = data.FillPath(cue.MakePath(cue.Str(label)), iter.Value().Eval())
-			}
-		}
-		return data, nil
-	default:
-		data = data.Unify(sch)
-	}
-	return data, nil
-}
-
 func convertCUEValueToString(inputCUE cue.Value) (string, error) {
 	re, err := cuejson.Marshal(inputCUE)
 	if err != nil {
@@ -185,7 +123,9 @@ func doDehydrate(sch, data cue.Value) (cue.Value, bool, error) {
 			lv := data.LookupPath(cue.MakePath(cue.Str(lable)))
 			if lv.Exists() {
 				re, isEqual, err := doDehydrate(iter.Value(), lv)
-				if err == nil && !isEqual {
+				// The default of an optional field is not applied if the field is absent,
+				// so removing it would change the data.
+				if err == nil && (!isEqual || iter.IsOptional()) {
 					rv = rv.FillPath(cue.MakePath(cue.Str(lable)), re)
 				}
 			}
@@ -201,7 +141,7 @@ func doDehydrate(sch, data cue.Value) (cue.Value, bool, error) {
 		return rv, false, nil
 	case cue.ListKind:
 		if isCueValueEqual(sch, data) {
-			return rv, true, nil
+			return data, true, nil
 		}
 
 		// take every element of the list
diff --git a/instance.go b/instance.go
index 5b98758..0e61340 100644
--- a/instance.go
+++ b/instance.go
@@ -60,16 +60,9 @@ func (i *Instance) check() {
 func (i *Instance) Hydrate() *Instance {
 	i.check()
 
-	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
-	// FIXME For now, just no-op it if we error
-	if err != nil {
-		return i
-	}
-
 	return &Instance{
 		valid: true,
-		raw:   ni,
+		raw:   i.resolved(),
 		name:  i.name,
 		sch:   i.sch,
 	}
@@ -83,7 +76,7 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From 83778313ff60d9910868b0ef309e592113b301cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:45 +0000
Subject: [PATCH 12/56] fix: float fields are assignable to Go floats

---
 assignable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/assignable.go b/assignable.go
index f97fba5..7e774c2 100644
--- a/assignable.go
+++ b/assignable.go
@@ -101,6 +101,11 @@ func assignable(sch cue.Value, T interface{}) error {
 		// as a single value, without any disjunctions.
 		gval = stripLeadNull(gval)
 
+		// All Go floats come across as the CUE number kind
+		if sk == cue.FloatKind && gk == cue.NumberKind {
+			gk = cue.FloatKind
+		}
+
 		// strict equality _might_ be too restrictive? But it's better to start there
 		if sk != gk && gk != (cue.TopKind^cue.NullKind) {
 			errs[p.String()] = fmt.Errorf("%s: is kind %s in schema, but kind %s in Go type", p, sk, gk)
-- 
2.43.0


From 65ff8579ae1003606c39d47fd5d56ad02e18e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:45 +0000
Subject: [PATCH 13/56] fix: check the elements of maps for assignability

---
 assignable.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/assignable.go b/assignable.go
index 7e774c2..968384c 100644
--- a/assignable.go
+++ b/assignable.go
@@ -175,6 +175,17 @@ func assignable(sch cue.Value, T interface{}) error {
 		for _, vp := range gmap {
 			errs[vp.Path.String()] = fmt.Errorf("%s: field present in Go type, absent from schema", vp.Path.String())
 		}
+
+		// A map in the schema must be a map in the Go type, with assignable elements
+		anystr := cue.MakePath(cue.AnyString)
+		sele, gele := osval.LookupPath(anystr), ogval.LookupPath(anystr)
+		if sele.Exists() && sele.IncompleteKind() != cue.TopKind {
+			if !gele.Exists() {
+				errs[p.String()] = fmt.Errorf("%s: is a map in schema, but a struct in Go type", p)
+				return
+			}
+			check(gele, sele, cue.MakePath(append(p.Selectors(), cue.AnyString)...))
+		}
 	}
 
 	checklist = func(gval, sval cue.Value, p cue.Path) {
-- 
2.43.0


From b270e60e751aedb569b2cfa3a2d3adeb01212264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:45 +0000
Subject: [PATCH 14/56] fix: defaults do not make a narrower Go type assignable

---
 assignable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assignable.go b/assignable.go
index 968384c..251f4c5 100644
--- a/assignable.go
+++ b/assignable.go
@@ -285,7 +285,7 @@ func assignable(sch cue.Value, T interface{}) error {
 		// be assignable to the Go type, we have to see if the Go type
 		// subsumes the schema, rather than the more intuitive check
 		// that the schema subsumes the Go type.
-		if err := gval.Subsume(sval, cue.Schema()); err != nil {
+		if err := gval.Subsume(sval, cue.Schema(), cue.Raw()); err != nil {
 			errs[p.String()] = fmt.Errorf("%s: schema type %v not subsumed by Go type %v", p, sval, gval)
 		}
 	}
-- 
2.43.0


From 1e3e89519c4cbfd02b0f2f32b2fe4c20f1d3b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:48 +0000
Subject: [PATCH 15/56] fix: lists of one element are assignable to arrays of
 one element

---
 assignable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assignable.go b/assignable.go
index 251f4c5..6fb9da7 100644
--- a/assignable.go
+++ b/assignable.go
@@ -237,6 +237,7 @@ func assignable(sch cue.Value, T interface{}) error {
 		var nonempty bool
 		if nonempty = iter.Next(); nonempty {
 			lastval = iter.Value()
+			los = lastval
 			for iter.Next() {
 				los = iter.Value() // it's fine to just keep updating the reference
 				// Failures indicate the CUE schema is unrepresentable in Go.
-- 
2.43.0


From 2b82767df42570f1501ca2be6834796b4cddb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:37 +0000
Subject: [PATCH 16/56] fix: BindType accepts non-pointer struct types

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 2a7dc0a..be7b9e5 100644
--- a/schema.go
+++ b/schema.go
@@ -179,7 +179,7 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	}
 
 	// Verify that there are no problematic errors emitted from decoding.
-	if err := sch.Underlying().LookupPath(pathSchDef).Decode(t); err != nil {
+	if err := sch.Underlying().LookupPath(pathSchDef).Decode(new(T)); err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
-- 
2.43.0


From ba30357e9602722b43f8007ed237d2365246cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:53 +0000
Subject: [PATCH 17/56] fix: instances can be bound to a schema that was typed
 twice

---
 schema.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/schema.go b/schema.go
index be7b9e5..d409f21 100644
--- a/schema.go
+++ b/schema.go
@@ -227,6 +227,7 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 }
 
 func schemaIs(s1, s2 Schema) bool {
+	s1, s2 = untypedSchema(s1), untypedSchema(s2)
 	// TODO will need something smarter here if/when we have more types representing schema
 	vs1, is1 := s1.(*schemaDef)
 	vs2, is2 := s2.(*schemaDef)
@@ -237,6 +238,17 @@ func schemaIs(s1, s2 Schema) bool {
 	return vs1 == vs2
 }
 
+// untypedSchema strips any Go types that have been bound to the provided schema.
+func untypedSchema(sch Schema) Schema {
+	for {
+		ts, is := sch.(interface{ untyped() Schema })
+		if !is {
+			return sch
+		}
+		sch = ts.untyped()
+	}
+}
+
 type unaryTypedSchema[T Assignee] struct {
 	Schema
 	newfn func() T
@@ -247,6 +259,10 @@ func (sch *unaryTypedSchema[T]) NewT() T {
 	return sch.newfn()
 }
 
+func (sch *unaryTypedSchema[T]) untyped() Schema {
+	return sch.Schema
+}
+
 func (sch *unaryTypedSchema[T]) is(osch Schema) bool {
 	return schemaIs(sch.Schema, osch)
 }
-- 
2.43.0


From 2ebe3335f2e7bcb14300a5b2206a3b19243110ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:36 +0000
Subject: [PATCH 18/56] fix: typed values include the defaults within lists and
 optional structs

---
 instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index 0e61340..d72cfe0 100644
--- a/instance.go
+++ b/instance.go
@@ -172,7 +172,7 @@ func (inst *TypedInstance[T]) Value() (T, error) {
 
 	t := inst.tsch.NewT()
 	// TODO figure out correct pointer handling here
-	err := inst.Instance.raw.Decode(&t)
+	err := inst.Instance.resolved().Decode(&t)
 	return t, err
 }
 
-- 
2.43.0


From 66cd2d3772f1b4c5804da874ef0b2d0149242e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:48 +0000
Subject: [PATCH 19/56] fix: jsonschema: nullable unions and enums accept null

OpenAPI's nullable was left in place inside and next to oneOf/anyOf/allOf, and
next to an enum it had no effect, so the JSON Schema rejected null where the
Thema schema accepts it.
---
 encoding/jsonschema/jschema.go | 49 +++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/encoding/jsonschema/jschema.go b/encoding/jsonschema/jschema.go
index b519526..20c2c8a 100644
--- a/encoding/jsonschema/jschema.go
+++ b/encoding/jsonschema/jschema.go
@@ -151,7 +151,15 @@ func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
 
 	typ, err := getSchemaType(n)
 	if err != nil {
-		return nil, err
+		if !checkNull(n) {
+			return nil, err
+		}
+		// Nullable union of different types, which has no type of its own
+		inner.scanf = func(p *schNode, n *ast.StructLit) error {
+			p.ensureNull = true
+			return nil
+		}
+		return inner, nil
 	}
 	switch typ {
 	case "object":
@@ -221,6 +229,15 @@ func (s *schNode) process() {
 		panic(err)
 	}
 
+	// Recurse down the branches of allOf/oneOf/anyOf/not
+	for _, el := range s.n.Elts {
+		if isLogicOp(el) {
+			if err := scan(s, el); err != nil {
+				panic(err)
+			}
+		}
+	}
+
 	astutil.Apply(s.n, func(c astutil.Cursor) bool {
 		switch x := c.Node().(type) {
 		case *ast.StructLit:
@@ -247,6 +264,10 @@ func (s *schNode) process() {
 		return false
 	}, nil)
 
+	if s.ensureNull {
+		s.admitNull()
+	}
+
 	// Add the $schema field to root only
 	if s.parent == nil {
 		s.n.Elts = append(s.n.Elts, &ast.Field{
@@ -256,6 +277,32 @@ func (s *schNode) process() {
 	}
 }
 
+// admitNull makes the validation keywords next to a nullable type accept null, too.
+func (s *schNode) admitNull() {
+	if enum := getFieldWithLabel(s.n, "enum"); enum != nil {
+		if l, is := enum.Value.(*ast.ListLit); is {
+			l.Elts = append(l.Elts, ast.NewNull())
+		}
+	}
+
+	var union bool
+	var outer, inner []ast.Decl
+	for _, el := range s.n.Elts {
+		union = union || isLogicOp(el)
+		if isFieldWithLabel(el, "description") || isFieldWithLabel(el, "default") {
+			outer = append(outer, el)
+		} else {
+			inner = append(inner, el)
+		}
+	}
+	if union {
+		s.n.Elts = append(outer, &ast.Field{
+			Label: ast.NewString("anyOf"),
+			Value: ast.NewList(&ast.StructLit{Elts: inner}, ast.NewStruct("type", ast.NewString("null"))),
+		})
+	}
+}
+
 func scan(p *schNode, n ast.Node) error {
 	var fatal error
 	ast.Walk(n, func(n ast.Node) bool {
-- 
2.43.0


From 5a7f25c79f5c547b5c86333e663874676424d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:54 +0000
Subject: [PATCH 20/56] fix: jsonschema: put $schema at the root of a union,
 not in its branches

---
 encoding/jsonschema/jschema.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/encoding/jsonschema/jschema.go b/encoding/jsonschema/jschema.go
index 20c2c8a..e075462 100644
--- a/encoding/jsonschema/jschema.go
+++ b/encoding/jsonschema/jschema.go
@@ -137,6 +137,17 @@ func isLogicOp(n ast.Node) bool {
 	return false
 }
 
+func isUnion(n *ast.StructLit) bool {
+	for _, el := range n.Elts {
+		if f, is := el.(*ast.Field); is && isLogicOp(f) {
+			if _, is := f.Value.(*ast.ListLit); is {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 var errNotASchema = errors.New("not a schema node")
 
 func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
@@ -151,12 +162,12 @@ func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
 
 	typ, err := getSchemaType(n)
 	if err != nil {
-		if !checkNull(n) {
+		if !checkNull(n) && !isUnion(n) {
 			return nil, err
 		}
-		// Nullable union of different types, which has no type of its own
+		// Union of different types, which has no type of its own
 		inner.scanf = func(p *schNode, n *ast.StructLit) error {
-			p.ensureNull = true
+			p.ensureNull = checkNull(n)
 			return nil
 		}
 		return inner, nil
-- 
2.43.0


From dc03bba03ae19d003517dbcb4f057bc2aa8037b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:54 +0000
Subject: [PATCH 21/56] fix: openapi: Subpath of more than one element

Every element was looked up in the root of the schema.
---
 encoding/openapi/oapi.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 4855e10..950dfb0 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -180,10 +180,12 @@ func genSchema(gen *oapiGen, val cue.Value) ([]ast.Decl, error) {
 	}
 
 	if hasSubpath {
+		parent := val
 		for i, sel := range gen.cfg.Subpath.Selectors() {
-			if !val.Allows(sel) {
+			if !parent.Allows(sel) {
 				return nil, errors.Newf(cuetil.FirstNonThemaPos(val), "subpath %q not present in schema", cue.MakePath(gen.cfg.Subpath.Selectors()[:i+1]...))
 			}
+			parent = parent.LookupPath(cue.MakePath(sel))
 		}
 		if err := pathAllowed(gen.join, gen.cfg.Subpath); err != nil {
 			return nil, err
@@ -250,6 +252,10 @@ func pathAllowed(v cue.Value, path cue.Path) error {
 		if !v.Allows(sel) {
 			return errors.Newf(v.Pos(), "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
 		}
+		v = v.LookupPath(cue.MakePath(sel))
+		if !v.Exists() {
+			return nil
+		}
 	}
 
 	return nil
-- 
2.43.0


From dfbd3f3042debd0c4a683dde0aeb691af82f5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:29 +0000
Subject: [PATCH 22/56] fix: openapi: GenerateSchema leaves the caller's Config
 alone

Reusing a Config for a second schema gave a document with an empty schema.
---
 encoding/openapi/oapi.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 950dfb0..ff6ec59 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -52,12 +52,18 @@ type Config struct {
 // Returns the result as a CUE AST, which is suitable for direct manipulation and
 // marshaling to either JSON or YAML.
 func GenerateSchema(sch thema.Schema, cfg *Config) (*ast.File, error) {
-	if cfg == nil {
-		cfg = &Config{}
+	// Work on a copy: the generator sets the NameFunc and Info of its config, which
+	// must not leak into the next call the caller makes with the same one.
+	var gcfg Config
+	var ocfg openapi.Config
+	if cfg != nil {
+		gcfg = *cfg
 	}
-	if cfg.Config == nil {
-		cfg.Config = &openapi.Config{}
+	if gcfg.Config != nil {
+		ocfg = *gcfg.Config
 	}
+	gcfg.Config = &ocfg
+	cfg = &gcfg
 
 	gen := &oapiGen{
 		cfg: cfg,
-- 
2.43.0


From b20b967d870a3d8445108887a66ea9bc640822dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:23 +0000
Subject: [PATCH 23/56] fix: declare Go types needed by structs within maps

The enum (and other helper) types of the fields of a struct that is the element of
a map were referred to in the generated Go, but never declared.
---
 internal/deepmap/oapi-codegen/pkg/codegen/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/deepmap/oapi-codegen/pkg/codegen/schema.go b/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
index 61ed40b..5a9254d 100644
--- a/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
+++ b/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
@@ -352,7 +352,7 @@ func GenerateGoSchema(sref *openapi3.SchemaRef, path []string) (Schema, error) {
 					additionalSchema.AdditionalTypes = append(additionalSchema.AdditionalTypes, typeDef)
 				}
 				outSchema.AdditionalPropertiesType = &additionalSchema
-				outSchema.AdditionalTypes = append(outSchema.AdditionalTypes, additionalSchema.AdditionalTypes...)
+				outSchema.AdditionalTypes = append(outSchema.AdditionalTypes, additionalSchema.GetAdditionalTypeDefs()...)
 			}
 
 			// If the schema has no properties, and only additional properties, we will
-- 
2.43.0


From 10d00dc74ae6b11b897bc3a890d318c9eab033d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:23 +0000
Subject: [PATCH 24/56] fix: default package name of generated Go types

GenerateTypesOpenAPI stored the default package name, the lineage's name, in the
caller's config, so types generated later with the same config for another lineage
got the first one's package name; nor was it lowercased, as documented.
---
 encoding/gocode/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index f76cd5c..e0304c9 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -94,12 +94,13 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	if err != nil {
 		return nil, fmt.Errorf("loading generated openapi failed: %w", err)
 	}
-	if cfg.PackageName == "" {
-		cfg.PackageName = sch.Lineage().Name()
+	pkgname := cfg.PackageName
+	if pkgname == "" {
+		pkgname = strings.ToLower(sch.Lineage().Name())
 	}
 
 	ccfg := codegen.Configuration{
-		PackageName: cfg.PackageName,
+		PackageName: pkgname,
 		Compatibility: codegen.CompatibilityOptions{
 			AlwaysPrefixEnumValues: true,
 		},
-- 
2.43.0


From d6aad3a934238cc749dd989d80e3037edc1b9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:16 +0000
Subject: [PATCH 25/56] fix: report fields with the same Go name

Generated Go types had two fields of one name, and so did not compile, when the
names of two of a schema's fields differ only in case or punctuation.
---
 internal/deepmap/oapi-codegen/pkg/codegen/schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/deepmap/oapi-codegen/pkg/codegen/schema.go b/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
index 5a9254d..0247fae 100644
--- a/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
+++ b/internal/deepmap/oapi-codegen/pkg/codegen/schema.go
@@ -371,6 +371,7 @@ func GenerateGoSchema(sref *openapi3.SchemaRef, path []string) (Schema, error) {
 			}
 
 			// We've got an object with some properties.
+			fieldNames := make(map[string]string)
 			for _, pName := range SortedSchemaKeys(schema.Properties) {
 				p := schema.Properties[pName]
 				propertyPath := append(path, pName)
@@ -413,6 +414,15 @@ func GenerateGoSchema(sref *openapi3.SchemaRef, path []string) (Schema, error) {
 					Deprecated:    p.Value.Deprecated,
 				}
 				outSchema.Properties = append(outSchema.Properties, prop)
+
+				if _, ok := prop.Extensions[extGoName]; !ok {
+					fieldName := prop.GoFieldName()
+					if other, ok := fieldNames[fieldName]; ok {
+						return Schema{}, fmt.Errorf("properties '%s' and '%s' have the same Go field name '%s', please use %s to specify your own name for one of them",
+							other, pName, fieldName, extGoName)
+					}
+					fieldNames[fieldName] = pName
+				}
 			}
 
 			if schema.AnyOf != nil {
-- 
2.43.0


From 6a4f471841ada85492825f27e05faa015f023ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 26/56] fix: do not store defaults in the caller's TypeScript
 config

The root type of every schema after the first that was generated with one TypeConfig
got the name of the first one's lineage.
---
 encoding/typescript/gen.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 4b5a3d9..1fc515c 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -62,18 +62,20 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 	if cfg == nil {
 		cfg = new(TypeConfig)
 	}
-	if cfg.CuetsyConfig == nil {
-		cfg.CuetsyConfig = &cuetsy.Config{
+	ccfg := cfg.CuetsyConfig
+	if ccfg == nil {
+		ccfg = &cuetsy.Config{
 			ImportMapper: cuetsy.IgnoreImportMapper,
 			Export:       true,
 		}
 	}
-	if cfg.RootName == "" {
-		cfg.RootName = strings.Title(sch.Lineage().Name())
+	rootName := cfg.RootName
+	if rootName == "" {
+		rootName = strings.Title(sch.Lineage().Name())
 	}
 
 	schdef := sch.Underlying().LookupPath(cue.MakePath(cue.Hid("_#schema", "github.com/grafana/thema")))
-	tf, err := cuetsy.GenerateAST(schdef, *cfg.CuetsyConfig)
+	tf, err := cuetsy.GenerateAST(schdef, *ccfg)
 	if err != nil {
 		return nil, fmt.Errorf("generating TS for child elements of schema failed: %w", err)
 	}
@@ -87,7 +89,7 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 		if cfg.RootAsType {
 			as = cuetsy.TypeAlias
 		}
-		top, err := cuetsy.GenerateSingleAST(cfg.RootName, schdef, as)
+		top, err := cuetsy.GenerateSingleAST(rootName, schdef, as)
 		if err != nil {
 			return nil, fmt.Errorf("generating TS for schema root failed: %w", err)
 		}
-- 
2.43.0


From b6405ed080730c14bba8185397d72d5712dbbd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 27/56] fix: validate-any, hydrate and dehydrate search the
 whole lineage unless a version is given

---
 cmd/thema/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ad0647b..c8547dc 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -135,7 +135,7 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	}
 
 	var reterr error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
 			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
@@ -236,7 +236,7 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
@@ -280,7 +280,7 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
-- 
2.43.0


From cb17f6bad480563b9385b62eb4ea7975a24ec0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 28/56] fix: -e json and -e yaml work for data on stdin

---
 cmd/thema/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c8547dc..c4027ce 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -387,7 +387,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 		return errors.New("unrecognized format of input data")
 
 	case "json":
-		if ext != "json" {
+		if ext != "" && ext != "json" {
 			return fmt.Errorf("JSON input format specified, but file extension is %s", ext)
 		}
 
@@ -396,7 +396,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 			return err
 		}
 	case "yaml":
-		if ext != "yaml" {
+		if ext != "" && ext != "yaml" {
 			return fmt.Errorf("YAML input format specified, but file extension is %s", ext)
 		}
 
-- 
2.43.0


From 6bf34ff5b819ca08d6cbe4261566a71093db0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 29/56] fix: accept data redirected from a file on stdin

---
 cmd/thema/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c4027ce..fb16783 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -310,7 +310,7 @@ func pathOrStdin(args []string) ([]byte, error) {
 		if err != nil {
 			panic(err)
 		}
-		if fi.Mode()&os.ModeNamedPipe == 0 {
+		if fi.Mode()&os.ModeCharDevice != 0 {
 			return nil, errors.New("no path provided and nothing on stdin")
 		}
 
-- 
2.43.0


From 49dcb7c9327449ac431813b0c082f668dfce7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 30/56] fix: --quiet silences validate and validate-any

---
 cmd/thema/data.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index fb16783..2b28622 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -107,6 +107,7 @@ func (dc *dataCommand) runValidate(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	cmd.SilenceErrors = dc.quiet
 	_, err := dc.lla.dl.sch.Validate(dc.datval)
 	if err != nil {
 		return err
@@ -134,17 +135,23 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	out := cmd.OutOrStdout()
+	if dc.quiet {
+		cmd.SilenceErrors = true
+		out = io.Discard
+	}
+
 	var reterr error
 	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			fmt.Fprintf(out, "%s\n", dc.lla.dl.sch.Version())
 			return nil
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		fmt.Fprintf(out, "%s\n", inst.Schema().Version())
 		return nil
 	}
 
-- 
2.43.0


From c9b67fb148e0f2e5b660a332cf3fec89692d695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 31/56] fix: gen gotypes --stdout writes to stdout

---
 cmd/thema/lineage_subgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 8b6bf84..e9a6658 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -76,7 +76,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	ggt.Use = "gotypes -l <path> [-p <cue-path>] [-v <synver>] [--pkgname <name>] [--stdout]"
 	ggt.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
 	ggt.Flags().StringVar(&gc.pkgname, "pkgname", "", "Name for generated Go package. Defaults to lowercase lineage name")
-	ggt.Flags().BoolVar(&gc.noembed, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
+	ggt.Flags().BoolVar(&gc.stdout, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
 	ggt.Flags().BoolVarP(&gc.quiet, "quiet", "q", false, "Do not print generated filename")
 	ggt.Run = gc.run
 
-- 
2.43.0


From d860a423b5ec0189c5f0e30641ad5c0c04345eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 32/56] fix: gen openapi and jsonschema print documents with %
 as they are

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index e9a6658..6a58acf 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,7 +187,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -225,7 +225,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
-- 
2.43.0


From 5db9a7edd54b411e84b5de0779cc9cee5ad4da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 33/56] fix: gen openapi and jsonschema fail for an unknown
 output format

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 6a58acf..3c92d27 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 6cceecad3b62fa8498b7030e99110ee0afb24350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 34/56] fix: init openapi and jsonschema check --name and
 default the package name

---
 cmd/thema/lineage_init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 029bb47..406e4cf 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -48,12 +48,12 @@ func (ic *initCommand) setup(cmd *cobra.Command) {
 	initLineageCmd.AddCommand(initLineageOpenAPICmd)
 	initLineageOpenAPICmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the OpenAPI document. Default: whole document")
 	initLineageOpenAPICmd.Run = ic.run
-	initLineageOpenAPICmd.PreRunE = ic.processInput
+	initLineageOpenAPICmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 
 	initLineageCmd.AddCommand(initLineageJSONSchemaCmd)
 	initLineageJSONSchemaCmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the JSON Schema document (e.g. #/...) Default: whole document")
 	initLineageJSONSchemaCmd.Run = ic.run
-	initLineageJSONSchemaCmd.PreRunE = ic.processInput
+	initLineageJSONSchemaCmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 }
 
 var initLineageCmd = &cobra.Command{
-- 
2.43.0


From 7c28196b50edc9d44c499ea6dff6e59730079151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:55 +0000
Subject: [PATCH 35/56] fix: rewrite all references to from and to in legacy
 lenses

---
 encoding/cue/rewrite.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8ae7a5a..e5cc29a 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -159,23 +159,31 @@ type legacyLens struct {
 // Rewrite the bodies of the lenses and any lacunas to have selectors using the
 // new field names
 func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
-	switch x := cursor.Node().(type) {
+	x, is := cursor.Node().(*ast.Ident)
+	if !is {
+		return true
+	}
+
+	// Field names are not references, and ONLY want to change the first element in
+	// any chain of selectors.
+	switch p := cursor.Parent().Node().(type) {
+	case *ast.Field:
+		if p.Label == x {
+			return false
+		}
 	case *ast.SelectorExpr:
-		if id, is := x.X.(*ast.Ident); is {
-			switch id.Name {
-			case "from":
-				x.X = ast.NewLit(token.STRING, "input")
-			case "to":
-				x.X = ast.NewLit(token.STRING, "result")
-			default:
-				return false
-			}
+		if p.Sel == x {
+			return false
 		}
-		// ONLY want to change the first element in any chain of selectors. So
-		// always stop searching once we've encountered a single one of these
-		return false
 	}
-	return true
+
+	switch x.Name {
+	case "from":
+		cursor.Replace(ast.NewLit(token.STRING, "input"))
+	case "to":
+		cursor.Replace(ast.NewLit(token.STRING, "result"))
+	}
+	return false
 }
 
 func (ll legacyLens) toAST() (ast.Expr, error) {
-- 
2.43.0


From 849bc90ce5ee0e2ef25f3783ce0a951dabd842fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:17 +0000
Subject: [PATCH 36/56] fix: report lacunas of legacy lenses that cannot be
 migrated instead of panicking or dropping them

---
 encoding/cue/rewrite.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index e5cc29a..3576e47 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -213,8 +213,15 @@ func (ll legacyLens) toAST() (ast.Expr, error) {
 	}
 
 	var lacsrc ast.Expr = ast.NewList()
-	if ll.lacunas.Exists() && ll.lacunas.Source() != nil {
-		src := ll.lacunas.Source().(*ast.Field).Value.(*ast.ListLit)
+	if ll.lacunas.Exists() {
+		field, is := ll.lacunas.Source().(*ast.Field)
+		if !is {
+			return nil, fmt.Errorf("lacunas of lens %s->%s have no single source, cannot migrate", ll.from, ll.to)
+		}
+		src, is := field.Value.(*ast.ListLit)
+		if !is {
+			return nil, fmt.Errorf("lacunas of lens %s->%s are not a list literal", ll.from, ll.to)
+		}
 		astutil.Apply(src, ll.rewriteFromTo, nil)
 		lacsrc = src
 	}
-- 
2.43.0


From f3df5b9d58eef6ffdf0c40b53903450b4b890d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:42 +0000
Subject: [PATCH 37/56] fix: carry the imports of a schema into the lineage
 made of it

---
 encoding/cue/encode.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/encoding/cue/encode.go b/encoding/cue/encode.go
index 57f088b..c396cc5 100644
--- a/encoding/cue/encode.go
+++ b/encoding/cue/encode.go
@@ -21,6 +21,14 @@ import (
 // pkgname is empty, the resulting file will have no package declaration.
 func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 	x := astutil.Format(sch)
+	var imports []*ast.ImportSpec
+	if f, ok := x.(*ast.File); ok {
+		for _, d := range f.Decls {
+			if id, ok := d.(*ast.ImportDecl); ok {
+				imports = append(imports, id.Specs...)
+			}
+		}
+	}
 	switch x.(type) {
 	case *ast.File, ast.Expr:
 		x = astutil.ToExpr(x)
@@ -35,6 +43,13 @@ func NewLineage(sch cue.Value, name, pkgname string) (*ast.File, error) {
 		Name:    name,
 		Sch:     string(b),
 	}
+	for _, spec := range imports {
+		imp := spec.Path.Value
+		if spec.Name != nil {
+			imp = spec.Name.Name + " " + imp
+		}
+		vars.Imports = append(vars.Imports, imp)
+	}
 
 	var buf bytes.Buffer
 	err = emptyLineage.Execute(&buf, vars)
@@ -94,6 +109,7 @@ func insertSchemaNodeAs(lin ast.Node, sch ast.Expr, v thema.SyntacticVersion) er
 type linTplVars struct {
 	PkgName string
 	Name    string
+	Imports []string
 	Sch     string
 }
 
@@ -101,6 +117,9 @@ type linTplVars struct {
 var emptyLineage = template.Must(template.New("newlin").Parse(`
 {{- if ne .PkgName "" }}package {{ .PkgName }}
 {{end}}import "github.com/grafana/thema"
+{{- range .Imports }}
+import {{ . }}
+{{- end }}
 
 thema.#Lineage
 name: "{{ .Name }}"
-- 
2.43.0


From 8d2567b37c224f80bee31015c60d8bbc01dd5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:54 +0000
Subject: [PATCH 38/56] fix: report legacy lenses whose references would be
 captured by a field when rewritten

---
 encoding/cue/rewrite.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 3576e47..b45dfcf 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -186,6 +186,35 @@ func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
 	return false
 }
 
+// Reports an error if a reference to from or to occurs in n where the new name
+// would refer to a field of an enclosing struct instead.
+func (ll legacyLens) checkCapture(n ast.Node) (err error) {
+	astutil.Apply(n, func(cursor astutil.Cursor) bool {
+		x, is := cursor.Node().(*ast.Ident)
+		if !is || (x.Name != "from" && x.Name != "to") {
+			return true
+		}
+		name := map[string]string{"from": "input", "to": "result"}[x.Name]
+		for p := cursor.Parent(); p != nil; p = p.Parent() {
+			s, is := p.Node().(*ast.StructLit)
+			if !is {
+				continue
+			}
+			for _, elt := range s.Elts {
+				f, is := elt.(*ast.Field)
+				if !is {
+					continue
+				}
+				if id, is := f.Label.(*ast.Ident); is && id.Name == name {
+					err = errors.Newf(x.Pos(), "reference to %s in lens %s->%s would become a reference to field %s, cannot migrate", x.Name, ll.from, ll.to, name)
+				}
+			}
+		}
+		return true
+	}, nil)
+	return err
+}
+
 func (ll legacyLens) toAST() (ast.Expr, error) {
 	var mapsrc ast.Expr
 	if !ll.mapper.Exists() {
@@ -208,6 +237,9 @@ func (ll legacyLens) toAST() (ast.Expr, error) {
 			return nil, fmt.Errorf("lens %s->%s mapper is not a struct literal", ll.from, ll.to)
 		}
 		existing.Lbrace = token.NoPos
+		if err := ll.checkCapture(existing); err != nil {
+			return nil, err
+		}
 		astutil.Apply(existing, ll.rewriteFromTo, nil)
 		mapsrc = existing
 	}
@@ -222,6 +254,9 @@ func (ll legacyLens) toAST() (ast.Expr, error) {
 		if !is {
 			return nil, fmt.Errorf("lacunas of lens %s->%s are not a list literal", ll.from, ll.to)
 		}
+		if err := ll.checkCapture(src); err != nil {
+			return nil, err
+		}
 		astutil.Apply(src, ll.rewriteFromTo, nil)
 		lacsrc = src
 	}
-- 
2.43.0


From 05b268b6fbca2df5119ae1900ec7d9dc81fb4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 39/56] fix: load directories outside of a CUE module whose
 lineage imports thema

---
 cmd/thema/load.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/thema/load.go b/cmd/thema/load.go
index 102e623..8cf89c5 100644
--- a/cmd/thema/load.go
+++ b/cmd/thema/load.go
@@ -139,6 +139,18 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 		}
 
 		binsts = load.Instances(args, cfg)
+		// CUE does not resolve the imports of the packages it finds this way, so load
+		// each package by name
+		for i, binst := range binsts {
+			if !lla.pathIsDir || binst.Err != nil || binst.PkgName == "_" {
+				continue
+			}
+			pcfg := *cfg
+			pcfg.Package = binst.PkgName
+			if pinsts := load.Instances(args, &pcfg); len(pinsts) == 1 {
+				binsts[i] = pinsts[0]
+			}
+		}
 	} else {
 		overlay := map[string]load.Source{}
 		// do no muckery if in thema mod dir
-- 
2.43.0


From ac6af59f3ce796dd3381d7c3a58c3f2c08cd1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 40/56] fix: lineage gen openapi defaults to YAML as documented

---
 cmd/thema/lineage_subgen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 3c92d27..f48d10d 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -104,6 +104,10 @@ func (gc *genCommand) run(cmd *cobra.Command, args []string) {
 	gc.lin = gc.lla.dl.lin
 	gc.sch = gc.lla.dl.sch
 	gc.epath = gc.lla.inputLinFilePath
+	// subcommands share the variable, but not the default
+	if f := cmd.Flags().Lookup("format"); f != nil && !f.Changed {
+		gc.format = f.DefValue
+	}
 
 	fi, err := os.Stat(gc.lla.inputLinFilePath)
 	if err != nil {
-- 
2.43.0


From 983412ed144aa477a269310373746e7b9508c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 41/56] fix: lineage init openapi reads stdin and reports
 malformed JSON

---
 cmd/thema/lineage_init.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 406e4cf..95902af 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -259,32 +259,35 @@ func inputToFile(input []byte, args []string) (*ast.File, error) {
 		Stdin: bytes.NewBuffer(input),
 	}
 	binsts := load.Instances(args, cfg)
-	bf := binsts[0].OrphanedFiles[0]
-	if bf == nil {
-		return nil, fmt.Errorf("could not load input file")
+	var enc build.Encoding
+	if of := binsts[0].OrphanedFiles; len(of) > 0 {
+		enc = of[0].Encoding
 	}
 
-	var f *ast.File
-	var err error
-	switch bf.Encoding {
+	switch enc {
 	case build.YAML:
-		f, err = yaml.Extract("input", input)
+		return yaml.Extract("input", input)
 	case build.JSON:
-		expr, err := json.Extract("input", input)
-		if err == nil {
-			f = &ast.File{
-				Decls: []ast.Decl{expr},
-			}
+		return jsonToFile(input)
+	case "":
+		// No usable filename extension, so figure it out; try JSON first
+		if f, err := jsonToFile(input); err == nil {
+			return f, nil
 		}
+		return yaml.Extract("input", input)
 	default:
-		err = fmt.Errorf("unsupported format: %s", bf.Encoding)
+		return nil, fmt.Errorf("unsupported format: %s", enc)
 	}
+}
 
+func jsonToFile(input []byte) (*ast.File, error) {
+	expr, err := json.Extract("input", input)
 	if err != nil {
 		return nil, err
 	}
-
-	return f, nil
+	return &ast.File{
+		Decls: []ast.Decl{expr},
+	}, nil
 }
 
 func (ic *initCommand) runOpenAPI(cmd *cobra.Command, args []string) {
-- 
2.43.0


From dbaf823fbbe98278f77d8095830997a4374f1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 42/56] fix: lineage init keeps schemas open that are open in
 the OpenAPI or JSON Schema document

---
 cmd/thema/lineage_init.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 95902af..ca5cdcd 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -227,7 +227,7 @@ func (ic *initCommand) runJSONSchema(cmd *cobra.Command, args []string) {
 		return is
 	}, nil)
 
-	linf, err := cue.NewLineage(sch.Eval(), ic.name, ic.pkgname)
+	linf, err := cue.NewLineage(sch, ic.name, ic.pkgname)
 	if err != nil {
 		ic.err = err
 		return
@@ -334,9 +334,7 @@ func (ic *initCommand) runOpenAPI(cmd *cobra.Command, args []string) {
 			ic.err = fmt.Errorf("value for --src-subpath is not a valid cue path expression: %w", p.Err())
 			return
 		}
-		// Eval will do dereferencing for us as needed, but may have other unintended
-		// side effects.
-		sch = sch.LookupPath(p).Eval()
+		sch = sch.LookupPath(p)
 		if !sch.Exists() {
 			ic.err = fmt.Errorf("path %q does not exist in converted schema", p.String())
 			return
-- 
2.43.0


From 1b21bd1b845d04e8b63e630ac6a690502ee8cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:31 +0000
Subject: [PATCH 43/56] fix: rewrite legacy lineages that are the root of a
 package of several files

---
 encoding/cue/rewrite.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index b45dfcf..8b872a3 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -76,8 +76,7 @@ func RewriteLegacyLineage(inst cue.Value, path cue.Path) (*ast.File, error) {
 		}
 	}
 	if !found {
-		// shouldn't be reachable - v.Source() can't be nil
-		panic("should be unreachable")
+		return nil, fmt.Errorf("could not find the file containing the seqs field")
 	}
 
 	astutil.Apply(src, func(cursor astutil.Cursor) bool {
@@ -302,7 +301,7 @@ func synvToAST(v thema.SyntacticVersion) ast.Expr {
 func isStructLiteral(v cue.Value) bool {
 	var is bool
 	switch x := v.Source().(type) {
-	case *ast.StructLit:
+	case *ast.StructLit, *ast.File:
 		return true
 	case *ast.Field:
 		_, is = x.Value.(*ast.StructLit)
-- 
2.43.0


From 5624991860c857caf01c832f13a0fafa03c18fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:31 +0000
Subject: [PATCH 44/56] fix: lineage fix takes directories outside of a CUE
 module

---
 cmd/thema/load.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/thema/load.go b/cmd/thema/load.go
index 8cf89c5..8aacd0a 100644
--- a/cmd/thema/load.go
+++ b/cmd/thema/load.go
@@ -182,8 +182,14 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 	}
 
 	if lla.skipBindLineage {
-		// just take the first one, ooof
+		// just take the first one that has any files, ooof
 		dl.binst = binsts[0]
+		for _, binst := range binsts {
+			if len(binst.Files) > 0 {
+				dl.binst = binst
+				break
+			}
+		}
 		return dl, nil
 	}
 
-- 
2.43.0


From 7cca591f10d701e0cabef713f9b178b883e87351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:50 +0000
Subject: [PATCH 45/56] fix: exclude other users of the runtime while types are
 bound and decoded

Encoding a Go type and resolving the defaults of a schema write to memory that
CUE shares, under the read lock (AssignableTo, NewT) or no lock (BindType).
---
 assignable.go |  5 +++--
 schema.go     | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/assignable.go b/assignable.go
index 6fb9da7..5f135d5 100644
--- a/assignable.go
+++ b/assignable.go
@@ -27,8 +27,9 @@ import (
 // Assignability rules are specified here: https://github.com/grafana/thema/blob/main/docs/invariants.md#go-assignability
 func AssignableTo(sch Schema, T any) error {
 	rt := sch.Lineage().Runtime()
-	rt.rl()
-	defer rt.ru()
+	// Encoding Go types and resolving defaults writes to memory that CUE shares
+	rt.l()
+	defer rt.u()
 	return assignable(sch.Underlying().LookupPath(pathSchDef), T)
 }
 
diff --git a/schema.go b/schema.go
index d409f21..d081034 100644
--- a/schema.go
+++ b/schema.go
@@ -178,8 +178,16 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 		Schema: sch,
 	}
 
+	// Decoding resolves defaults, which CUE caches in the schema's value
+	rt := getLinLib(sch.Lineage())
+	decode := func(nt *T) error {
+		rt.l()
+		defer rt.u()
+		return sch.Underlying().LookupPath(pathSchDef).Decode(nt)
+	}
+
 	// Verify that there are no problematic errors emitted from decoding.
-	if err := sch.Underlying().LookupPath(pathSchDef).Decode(new(T)); err != nil {
+	if err := decode(new(T)); err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
@@ -209,12 +217,9 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	// general Go types CUE can decode onto, there may be some opportunity for a
 	// specialized implementation to improve performance - but we'll attempt that
 	// iff performance is actually shown to be a problem.
-	rt := getLinLib(sch.Lineage())
 	tsch.newfn = func() T {
 		nt := new(T)
-		rt.rl()
-		sch.Underlying().LookupPath(pathSchDef).Decode(nt) //nolint:gosec,errcheck
-		rt.ru()
+		decode(nt) //nolint:gosec,errcheck
 		return *nt
 	}
 
-- 
2.43.0


From 1a6427783605d15c6a09bd91906fa8090a90561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 46/56] fix: evaluate CUE values under an exclusive lock

Operations that only read also make CUE evaluate, and cache, parts of the values
they share: concurrent Validate calls raced under the read lock, and
Dehydrate, Examples, IsAppendOnly and parts of Translate took no lock.
---
 instance.go | 37 ++++++++++++++++++++++++++-----------
 lineage.go  | 24 ++++++++++++++++++++++++
 runtime.go  | 23 +++++++----------------
 schema.go   |  7 +++++--
 4 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/instance.go b/instance.go
index d72cfe0..fde2fbf 100644
--- a/instance.go
+++ b/instance.go
@@ -76,7 +76,9 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
+	i.rt().l()
 	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
+	i.rt().u()
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -255,18 +257,9 @@ func (i *Instance) translateStep(newsch Schema, lac *multiTranslationLacunas) (*
 		panic(err)
 	}
 
-	if out.Err() != nil {
-		return nil, out.Err()
-	}
-
-	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
-	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
-	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
-
-	// Check that the result is concrete by trying to marshal/export it as JSON
-	_, err = json.Marshal(raw)
+	raw, err := i.lensResult(out)
 	if err != nil {
-		return nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, err
 	}
 
 	// Ensure the result is a valid instance of the target schema
@@ -277,6 +270,8 @@ func (i *Instance) translateStep(newsch Schema, lac *multiTranslationLacunas) (*
 
 	// Only steps through an explicit lens emit lacunas
 	var stepLac []Lacuna
+	i.rt().l()
+	defer i.rt().u()
 	lacv := out.LookupPath(cue.MakePath(cue.Str("steps"), cue.Index(0), cue.Str("lacunas")))
 	if lacv.Exists() {
 		if err := lacv.Decode(&stepLac); err != nil {
@@ -289,6 +284,26 @@ func (i *Instance) translateStep(newsch Schema, lac *multiTranslationLacunas) (*
 	return inst, nil
 }
 
+// lensResult returns the data in the output of #Translate.
+func (i *Instance) lensResult(out cue.Value) (cue.Value, error) {
+	i.rt().l()
+	defer i.rt().u()
+
+	if out.Err() != nil {
+		return cue.Value{}, out.Err()
+	}
+
+	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
+	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
+	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
+
+	// Check that the result is concrete by trying to marshal/export it as JSON
+	if _, err := json.Marshal(raw); err != nil {
+		return cue.Value{}, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+	}
+	return raw, nil
+}
+
 // resolved returns the data contained in the instance, with concrete values for
 // all the fields that its schema guarantees to exist. Lenses may refer to any of
 // them, whether or not the original input relied on the schema's defaults.
diff --git a/lineage.go b/lineage.go
index 45a788b..bd46d3f 100644
--- a/lineage.go
+++ b/lineage.go
@@ -3,6 +3,7 @@ package thema
 import (
 	"fmt"
 	"sort"
+	"sync"
 
 	"cuelang.org/go/cue"
 	cerrors "cuelang.org/go/cue/errors"
@@ -291,9 +292,32 @@ func (lin *unaryConvLineage[T]) TypedSchema() TypedSchema[T] {
 	return lin.tsch
 }
 
+// pairMut is held while the locks of two runtimes are being taken, so that they
+// can be taken in any order.
+var pairMut sync.Mutex
+
+// lockRuntimes locks both runtimes, which may be the same, and returns a func that
+// unlocks them.
+func lockRuntimes(a, b *Runtime) func() {
+	if a == b {
+		a.l()
+		return a.u
+	}
+	pairMut.Lock()
+	defer pairMut.Unlock()
+	a.l()
+	b.l()
+	return func() {
+		b.u()
+		a.u()
+	}
+}
+
 // IsAppendOnly returns nil if the new lineage only contains new schemas compared to the old one.
 // It returns an error if old schemas are updated or deleted.
 func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
+	defer lockRuntimes(oldLineage.Runtime(), newLineage.Runtime())()
+
 	oldSchemas := oldLineage.All()
 	newSchemas := newLineage.All()
 
diff --git a/runtime.go b/runtime.go
index ec03373..db381e5 100644
--- a/runtime.go
+++ b/runtime.go
@@ -63,9 +63,10 @@ type Runtime struct {
 	// package.
 	val cue.Value
 
-	// Until CUE is safe for certain concurrent operations, keep a mutex to
-	// help guard...at least somewhat.
-	mut sync.RWMutex
+	// Until CUE is safe for certain concurrent operations, keep a mutex to guard
+	// all evaluation of CUE values. There is no shared mode: also operations that
+	// only read make CUE evaluate, and cache, parts of the values they read.
+	mut sync.Mutex
 }
 
 // NewRuntime parses, loads and builds a full CUE instance/value representing
@@ -87,16 +88,6 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	}
 }
 
-func (rt *Runtime) rl() {
-	rt.mut.RLock()
-	// rt.mut.Lock()
-}
-
-func (rt *Runtime) ru() {
-	rt.mut.RUnlock()
-	// rt.mut.Unlock()
-}
-
 func (rt *Runtime) l() {
 	rt.mut.Lock()
 }
@@ -118,7 +109,7 @@ func (rt *Runtime) Context() *cue.Context {
 
 // Return the #Lineage definition (or panic)
 //
-// SURROUND CALLS TO THIS IN rl()/ru()
+// SURROUND CALLS TO THIS IN l()/u()
 func (rt *Runtime) linDef() cue.Value {
 	dlin := rt.val.LookupPath(cue.MakePath(cue.Def("#Lineage")))
 	return dlin
@@ -176,9 +167,9 @@ func (ca cueArgs) call(path string, rt *Runtime) (cue.Value, error) {
 	if err != nil {
 		return cue.Value{}, err
 	}
-	rt.rl()
+	rt.l()
 	rv := v.LookupPath(outpath)
-	rt.ru()
+	rt.u()
 	return rv, nil
 }
 
diff --git a/schema.go b/schema.go
index d081034..f87c444 100644
--- a/schema.go
+++ b/schema.go
@@ -38,6 +38,9 @@ type schemaDef struct {
 // Examples returns the set of examples of this schema defined in the original
 // lineage. The string key is the name given to the example.
 func (sch *schemaDef) Examples() map[string]*Instance {
+	sch.rt().l()
+	defer sch.rt().u()
+
 	examplesNode := sch.Underlying().LookupPath(pathExamples)
 	it, err := examplesNode.Fields()
 	if err != nil {
@@ -72,8 +75,8 @@ func (sch *schemaDef) rt() *Runtime {
 // incomplete CUE values with Thema schemas, prefer working directly in CUE,
 // or if you must, rely on Underlying().
 func (sch *schemaDef) Validate(data cue.Value) (*Instance, error) {
-	sch.rt().rl()
-	defer sch.rt().ru()
+	sch.rt().l()
+	defer sch.rt().u()
 	// TODO which approach is actually the right one, unify or subsume? ugh
 	// err := sch.raw.Subsume(data, cue.All(), cue.Raw())
 	// if err != nil {
-- 
2.43.0


From 1a161a78d734c648586dc35fd505acc0e5e71bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 47/56] fix: exemplar defaultchange translates values that are
 not the default, and reports its reverse lacuna

The lenses read input.anion, so they gave nothing for any other value, and the
reverse lacuna was attached to the default of the wrong schema.
---
 exemplars/defaultchange.cue | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exemplars/defaultchange.cue b/exemplars/defaultchange.cue
index 3526c0f..052f8d2 100644
--- a/exemplars/defaultchange.cue
+++ b/exemplars/defaultchange.cue
@@ -22,11 +22,11 @@ defaultchange: {
 					aunion: "foo"
 				}
 				if input.aunion != "bar" {
-					aunion: input.anion
+					aunion: input.aunion
 				}
 			}
 			lacunas: [
-				if input.aunion == "foo" {
+				if input.aunion == "bar" {
 					thema.#Lacuna & {
 						sourceFields: [{
 							path:  "aunion"
@@ -51,7 +51,7 @@ defaultchange: {
 					aunion: "bar"
 				}
 				if input.aunion != "foo" {
-					aunion: input.anion
+					aunion: input.aunion
 				}
 			}
 			lacunas: [
-- 
2.43.0


From 7c32b463d44f4d397314c0cf89109c4b3dfeb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 48/56] fix: exemplar expand translates "baz" from 0.3 to the
 default of 0.2

as its comment says, instead of failing.
---
 exemplars/expand.cue | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exemplars/expand.cue b/exemplars/expand.cue
index fdfe2c8..588925a 100644
--- a/exemplars/expand.cue
+++ b/exemplars/expand.cue
@@ -65,8 +65,13 @@ expand: {
 					}
 					if input.withDefault != _|_ {
 						// if the value is "baz" (not allowed by the to schema), then the to
-						// schema's default value "foo" will be selected by Thema's #Translate
-						withDefault: input.withDefault
+						// schema's default value "foo" is selected
+						if input.withDefault == "baz" {
+							withDefault: "foo"
+						}
+						if input.withDefault != "baz" {
+							withDefault: input.withDefault
+						}
 					}
 				}
 			}]
-- 
2.43.0


From 703cee08ef6a27c02d1bbf08e323052aa4fa392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 49/56] fix: exemplar disjunct has a lens from 0.1 to 0.0

---
 exemplars/disjunct.cue | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/exemplars/disjunct.cue b/exemplars/disjunct.cue
index 368527e..cf02fc8 100644
--- a/exemplars/disjunct.cue
+++ b/exemplars/disjunct.cue
@@ -40,21 +40,21 @@ disjunct: {
 			input: _
 			result: {
 				// FIXME this extra conditional is needed b/c otherwise lienage validation complains 'branch' field doesn't exist
-				//				if input.rootfield.branch != _|_ {
-				//					if input.rootfield.branch == 1 || input.rootfield.branch == 2 {
-				//						// For branches 1 and 2, there are no changes, so just
-				//						// unify the input directly as the result by embedding it
-				//						input
-				//					}
-				//					if input.rootfield.branch == 3 {
-				//						// For branch 3, there is no real correspondence, so choose
-				//						// to fall back to branch 1 with a filler value.
-				//						rootfield: {
-				//							branch:    1
-				//							branchone: "wasthree"
-				//						}
-				//					}
-				//				}
+				if input.rootfield.branch != _|_ {
+					if input.rootfield.branch == 1 || input.rootfield.branch == 2 {
+						// For branches 1 and 2, there are no changes, so just
+						// pass the field on unchanged
+						rootfield: input.rootfield
+					}
+					if input.rootfield.branch == 3 {
+						// For branch 3, there is no real correspondence, so choose
+						// to fall back to branch 1 with a filler value.
+						rootfield: {
+							branch:    1
+							branchone: "wasthree"
+						}
+					}
+				}
 			}
 			lacunas: []
 		}]
-- 
2.43.0


From c967ac55795f4a935282bec183ecd227c1e9b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 50/56] fix: tell data and bound of a predeclared type apart in
 validation errors

---
 validate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate.go b/validate.go
index 5607e8e..081ee11 100644
--- a/validate.go
+++ b/validate.go
@@ -154,8 +154,9 @@ func mungeValidateErr(err error, sch Schema) error {
 			var dataval, schval string
 			var dvok, svok bool
 
-			// data first
-			if len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
+			// data first, which is always so for bounds, and those of predeclared types
+			// such as uint8 have no position
+			if strings.Contains(msg, "out of bound") || len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
 				schval, svok = vals[1].(string)
 				dataval, dvok = vals[0].(string)
 			} else { // schema first
-- 
2.43.0


From ac370879bb6cd949c50868734fc304ab9c194574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:16 +0000
Subject: [PATCH 51/56] fix: validation errors locate every failure, also those
 of unfamiliar form

---
 validate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validate.go b/validate.go
index 081ee11..4f348e2 100644
--- a/validate.go
+++ b/validate.go
@@ -215,6 +215,12 @@ func mungeValidateErr(err error, sch Schema) error {
 			errs = append(errs, err)
 			continue
 		}
+
+		// Not one of the known forms, e.g. incompatible list lengths. Empty disjunctions
+		// are merely a heading: an error for each of the branches follows.
+		if !strings.Contains(msg, "empty disjunction") {
+			errs = append(errs, fmt.Errorf("%s: validation failed, data is not an instance:\n\t%s", x, fmt.Sprintf(msg, vals...)))
+		}
 	}
 	if len(errs) == 0 {
 		// No recognizable errors. Report the original one rather than nothing at all
-- 
2.43.0


From a606aad430d2ba7efd1036649cb4f34ad2a8f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:16 +0000
Subject: [PATCH 52/56] fix: validation errors do not mistake data for schema
 where positions do not tell

---
 schema.go   |  2 +-
 validate.go | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/schema.go b/schema.go
index f87c444..213fe05 100644
--- a/schema.go
+++ b/schema.go
@@ -91,7 +91,7 @@ func (sch *schemaDef) Validate(data cue.Value) (*Instance, error) {
 	// ie: every field defined by the schema has a concrete value associated to it,
 	// and no required field was omitted.
 	if err := x.Validate(cue.Concrete(true)); err != nil {
-		return nil, mungeValidateErr(err, sch)
+		return nil, mungeValidateErr(err, sch, data)
 	}
 
 	return &Instance{
diff --git a/validate.go b/validate.go
index 4f348e2..7b0f8d7 100644
--- a/validate.go
+++ b/validate.go
@@ -3,6 +3,7 @@ package thema
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"cuelang.org/go/cue"
@@ -107,7 +108,7 @@ func (vf validationFailure) Error() string {
 }
 
 // HERE BE DRAGONS, BRING A SWORD.
-func mungeValidateErr(err error, sch Schema) error {
+func mungeValidateErr(err error, sch Schema, data cue.Value) error {
 	_, is := err.(errors.Error)
 	if !is {
 		return err
@@ -154,9 +155,7 @@ func mungeValidateErr(err error, sch Schema) error {
 			var dataval, schval string
 			var dvok, svok bool
 
-			// data first, which is always so for bounds, and those of predeclared types
-			// such as uint8 have no position
-			if strings.Contains(msg, "out of bound") || len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
+			if dataFirst(vals, data, x.fieldpath, inputPositions) {
 				schval, svok = vals[1].(string)
 				dataval, dvok = vals[0].(string)
 			} else { // schema first
@@ -182,8 +181,7 @@ func mungeValidateErr(err error, sch Schema) error {
 			var schval, dataval string
 			var schkind, datakind cue.Kind
 
-			// data first
-			if len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
+			if dataFirst(vals, data, x.fieldpath, inputPositions) {
 				schval, svok = vals[1].(string)
 				dataval, dvok = vals[0].(string)
 				schkind, skok = vals[3].(cue.Kind)
@@ -287,6 +285,33 @@ func splitTokens(poslist []token.Pos) (schpos, datapos []token.Pos) {
 	return schpos, datapos
 }
 
+// dataFirst reports whether the first of the two conflicting values of an error is
+// the data's. Their order does not follow from positions: some values, such as
+// predeclared types (uint8), have none. So, see what the data has at that path.
+func dataFirst(vals []interface{}, data cue.Value, fieldpath []string, pos []token.Pos) bool {
+	var sels []cue.Selector
+	for _, part := range fieldpath {
+		if i, err := strconv.Atoi(part); err == nil {
+			sels = append(sels, cue.Index(i))
+		} else {
+			sels = append(sels, cue.ParsePath(part).Selectors()...)
+		}
+	}
+	if v := data.LookupPath(cue.MakePath(sels...)); v.Exists() {
+		var first, second bool
+		if len(vals) == 4 {
+			first, second = vals[2] == v.Kind(), vals[3] == v.Kind()
+		} else {
+			text := fmt.Sprint(v)
+			first, second = vals[0] == text, vals[1] == text
+		}
+		if first != second {
+			return first
+		}
+	}
+	return len(pos) > 1 && !strings.HasSuffix(pos[0].Filename(), ".cue")
+}
+
 func trimThemaPath(parts []string) []string {
 	for i, s := range parts {
 		if s == "schemas" {
-- 
2.43.0


From 476dca65c8efa25c771613b6dc2e1d4c749fbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:45 +0000
Subject: [PATCH 53/56] fix: generated bindings load the lineage's package,
 whatever the module and directory are called

---
 cmd/thema/lineage_subgen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index f48d10d..fa76c92 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -344,6 +344,11 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 				if roots.cuemod != "" && rel != "." {
 					cfg.CueModName = filepath.ToSlash(path.Join(cfg.CueModName, rel))
 				}
+
+				// the package that is loaded is the one named as the module's last element
+				if pkg := gc.lla.dl.binst.PkgName; pkg != "" && pkg != "_" && path.Base(cfg.CueModName) != pkg {
+					cfg.CueModName = path.Join(cfg.CueModName, pkg)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 44d51b611da4d6c5d58351e743b4679d9ac5b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:15 +0000
Subject: [PATCH 54/56] fix: disjunctions of lists are only assignable to Go
 types that hold every branch

---
 assignable.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/assignable.go b/assignable.go
index 5f135d5..9863258 100644
--- a/assignable.go
+++ b/assignable.go
@@ -119,6 +119,10 @@ func assignable(sch cue.Value, T interface{}) error {
 
 		switch sk {
 		case cue.ListKind:
+			if schemaHadNull && ogval.IncompleteKind()&cue.NullKind == 0 {
+				errs[p.String()] = fmt.Errorf("%s: may be null in schema, but not in Go type", p)
+				return
+			}
 			checklist(gval, sval, p)
 		case cue.FloatKind, cue.IntKind, cue.StringKind, cue.BytesKind, cue.BoolKind, cue.NumberKind:
 			if schemaHadNull {
@@ -190,18 +194,29 @@ func assignable(sch cue.Value, T interface{}) error {
 	}
 
 	checklist = func(gval, sval cue.Value, p cue.Path) {
-		// If the schema is an open list with a default value, sval.Len() will produce a bottom value because it can't
+		// If the schema is a disjunction of lists, sval.Len() will produce a bottom value because it can't
 		// know which side of the disjunction to pick. There could be many branches on this disjunction, though. Only
-		// allow two, and only if one is a default.
-		if _, has := sval.Default(); has {
-			// Bewildering: calling Expr() on a list disjunction with a default value appears to
-			// just drop the marked/default value, and not indicate an OrOp at all. This is handy,
-			// but unexpected behavior, and it feels dangerous to rely on.
-			_, evals := sval.Expr()
-			if len(evals) > 2 {
+		// allow two, null aside, and only if the Go type is right for both.
+		//
+		// Bewildering: calling Expr() on a list disjunction with a default value appears to
+		// just drop the marked/default value, and not indicate an OrOp at all. This is handy,
+		// but unexpected behavior, and it feels dangerous to rely on.
+		if op, evals := sval.Expr(); op == cue.OrOp {
+			var branches []cue.Value
+			for _, eval := range evals {
+				if eval.Null() != nil {
+					branches = append(branches, eval)
+				}
+			}
+			if len(branches) > 2 {
 				errs[p.String()] = fmt.Errorf("%s: schema is a complex disjunction of list types, may only correspond to interface{}/any", p)
 				return
 			}
+			for _, branch := range branches {
+				checklist(gval, branch, p)
+			}
+			return
+		} else if _, has := sval.Default(); has {
 			sval = evals[0]
 		}
 
-- 
2.43.0


From d0f0305495dbdc383f01fdd6878a49e04e83c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 55/56] fix: errors about Go migrations that are not expected
 give the right reason

---
 bind.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bind.go b/bind.go
index 103977a..92b4f4a 100644
--- a/bind.go
+++ b/bind.go
@@ -293,22 +293,22 @@ func (ml *maybeLineage) checkGoLensCompleteness() error {
 				continue
 			}
 			if !synvExists(ml.allv, lens.To) {
-				fmt.Fprintf(b, "\t%s (schema version %s does not exist)", elid, lens.To)
+				fmt.Fprintf(b, "\t%s (schema version %s does not exist)\n", elid, lens.To)
 			} else if !synvExists(ml.allv, lens.From) {
-				fmt.Fprintf(b, "\t%s (schema version %s does not exist)", elid, lens.From)
+				fmt.Fprintf(b, "\t%s (schema version %s does not exist)\n", elid, lens.From)
 			} else if elid.To == elid.From {
-				fmt.Fprintf(b, "\t%s (self-migrations not allowed)", elid)
+				fmt.Fprintf(b, "\t%s (self-migrations not allowed)\n", elid)
 			} else if elid.To.Less(elid.From) {
 				// reverse lenses
 				// only possibility is non-sequential versions connected
-				fmt.Fprintf(b, "\t%s (%s is predecessor of %s, not %s)", elid, ml.allv[searchSynv(ml.allv, elid.From)-1], elid.From, elid.To)
+				fmt.Fprintf(b, "\t%s (%s is predecessor of %s, not %s)\n", elid, ml.allv[searchSynv(ml.allv, elid.From)-1], elid.From, elid.To)
 			} else {
 				// forward lenses
 				// either a minor lens was provided, or non-sequential versions connected
-				if lens.To[0] != lens.From[0] {
-					fmt.Fprintf(b, "\t%s (minor version upgrades are handled automatically)", elid)
+				if lens.To[0] == lens.From[0] {
+					fmt.Fprintf(b, "\t%s (minor version upgrades are handled automatically)\n", elid)
 				} else {
-					fmt.Fprintf(b, "\t%s (%s is successor of %s, not %s)", elid, ml.allv[searchSynv(ml.allv, elid.From)+1], elid.From, elid.To)
+					fmt.Fprintf(b, "\t%s (%s is successor of %s, not %s)\n", elid, ml.allv[searchSynv(ml.allv, elid.From)+1], elid.From, elid.To)
 				}
 			}
 		}
-- 
2.43.0


From 718e751d107259da856be7c5bd3a4834ae2c5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:14 +0000
Subject: [PATCH 56/56] fix: generated Go types replace what is not a type of
 its own at every depth

---
 encoding/gocode/decorators.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/gocode/decorators.go b/encoding/gocode/decorators.go
index b27ce8a..167b143 100644
--- a/encoding/gocode/decorators.go
+++ b/encoding/gocode/decorators.go
@@ -256,6 +256,8 @@ func iterateMap(s *dst.MapType, fn func(i *dst.Ident)) {
 		iterateArray(mx, fn)
 	case *dst.MapType:
 		iterateMap(mx, fn)
+	case *dst.StructType:
+		iterateStruct(mx, fn)
 	}
 }
 
@@ -265,6 +267,8 @@ func iterateArray(a *dst.ArrayType, fn func(i *dst.Ident)) {
 		fn(mx)
 	case *dst.ArrayType:
 		iterateArray(mx, fn)
+	case *dst.MapType:
+		iterateMap(mx, fn)
 	case *dst.StructType:
 		iterateStruct(mx, fn)
 	}
-- 
2.43.0

