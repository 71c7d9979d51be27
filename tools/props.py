#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, note=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), note

PROPS = [
P("C01", "A lineage binds only if its schemas are well formed and numbered in sequence",
  "Binding succeeds exactly for lineages that have a concrete name and a non-empty list of well-formed schemas whose versions start at 0.0 and then each step either to the next minor or to the first minor of the next major, with explicit lenses listed in canonical order. Everything else is rejected with an error and no lineage. A bound lineage exposes its name and exactly the declared schemas, each under its declared version with its declared content and examples, in whatever surface form (plain value, unified with the lineage definition, embedded) it was written.",
  ["inputs", "programs"], "every sequence of up to 3 (arbitrary) or 5 (contiguous) versions over a 3x3 grid and all choices of schema bodies, long chains with one defect at every position, every permutation of the lens list, a catalogue of malformed lineages, twelve surface forms",
  "tests bind a fixed catalogue of hand-written lineages; gaps, duplicates, reordered versions and forms they do not list are never tried",
  ["bind.go", "lineage.go", "lineage.cue", "schema.go"],
  [("version order and sequence check", "bind.go"), ("_counts / version defaults", "lineage.cue"), ("lens order", "lineage.cue")],
  ["BindLineage", "Lineage.All", "Schema.Version", "Schema.Validate"]),
P("C02", "Minor bump exactly when backwards compatible",
  "For any two successive schemas, the second is accepted under the next minor version exactly when every valid instance of the first is a valid instance of the second and no published default changes; otherwise it is accepted exactly under the next major. Exactly one of the two numberings is accepted for any pair.",
  ["inputs", "programs"], "every ordered pair of 107 schemas built from 32 field types (required/optional, nested, two fields), under both numberings, with compatibility decided instance by instance over a complete probe product",
  "tests cover a few dozen hand-picked pairs; compatibility quantifies over all instances of both schemas",
  ["bind.go", "internal/compat/compat.go"], [("backwards-compatibility analysis", "internal/compat/compat.go"), ("enforcement for successive schemas", "bind.go")],
  ["BindLineage"]),
P("C03", "Validate accepts exactly the schema's instances",
  "Validating data against a schema succeeds exactly when the data is a member of the schema (closed structs, optional and defaulted fields, bounds, patterns, enums, lists, maps, disjunctions). Success returns an instance bound to that schema with the data unchanged; failure returns no instance and an invalid-data error that carries a detail; validation never changes its input and never panics.",
  ["inputs"], "every schema of one or two fields over 32 leaf types x required/optional x nesting x awkward field names (4290 schemas), each with every combination of 48 (or 13 per field) probe values, missing and undeclared fields, and non-struct data",
  "tests validate a handful of documents per exemplar",
  ["validate.go", "schema.go", "instance.go"], [("Validate / mungeValidateErr", "validate.go")], ["Schema.Validate", "Instance.Underlying"]),
P("C04", "ValidateAny finds the oldest schema the data is valid against",
  "ValidateAny returns an instance of the oldest schema in the lineage for which the data is valid, and nothing when the data is valid for none. The result does not depend on which data was validated before.",
  ["inputs", "histories"], "every lineage shape of up to 5 schemas with overlapping and nested bodies, every probe datum, in sequence on one lineage",
  "tests check a few hand-picked data; overlap patterns between schemas are not enumerated",
  ["lineage.go"], [("ValidateAny", "lineage.go")], ["Lineage.ValidateAny"]),
P("C05", "Translate applies exactly the lenses between the two versions",
  "Translating an instance to any version of its lineage yields an instance of exactly the requested version whose data is the result of applying, one after the other and in order, exactly the lenses on the path between the two versions (implicit identity for minor steps forward, explicit lenses otherwise), with the target's defaults applied, and the result is valid for that version. Translation to the same version returns the same data. If any lens on the path is missing, produces invalid or incomplete output, or cannot be evaluated, Translate returns an invalid-lens error, never a wrong result.",
  ["inputs", "programs", "fault_sequences"], "every lineage shape up to 5 schemas (7 thorough) with traced lenses, all (from,to) pairs, all data variants, every field type passed through, a fault of every kind injected at every lens position",
  "tests translate few lineages with at most three schemas and check goldens of single steps",
  ["instance.go", "translate.cue", "traverse.cue", "lineage.cue"], [("Instance.Translate stepwise fold", "instance.go"), ("#Translate", "translate.cue"), ("lens resolution", "lineage.cue")],
  ["Instance.Translate"]),
P("C06", "Translation composes: direct equals stepwise equals via any midpoint",
  "For forward or backward paths, translating directly from a to b gives the same instance data as translating through any intermediate version between them, and the same as repeatedly moving to the successor or predecessor. Asking for the successor of the newest schema or the predecessor of the oldest is reported as an error.",
  ["inputs", "histories"], "every lineage shape up to 5 schemas (6 thorough), every (a, mid, b) triple and every successor/predecessor chain, all data variants",
  "tests compare no two routes",
  ["instance.go", "surface.go"], [("AsSuccessor / AsPredecessor", "instance.go")], ["Instance.Translate", "Instance.AsSuccessor", "Instance.AsPredecessor"]),
P("C07", "Lenses written in Go translate exactly like lenses written in CUE",
  "When a lineage is bound with Go lens mappers, translating calls exactly the mappers on the path, each once, in order, each with an instance of its source version, and the result is an instance of the target version with the data the last mapper returned. A mapper that fails, returns nothing, or returns an instance of another version makes Translate return an invalid-lens error that preserves the cause; later mappers are then not called.",
  ["inputs", "fault_sequences"], "every lineage shape up to 5 schemas, all (from,to) pairs, every mapper on the path failing in each of the failure modes; results compared with the same lineage with CUE lenses",
  "tests run one Go-migration lineage, with well-behaved mappers",
  ["instance.go", "bind.go", "lineage.go"], [("translateGo", "instance.go")], ["ImperativeLenses", "Instance.Translate"]),
P("C08", "Go lens sets are accepted only when exact",
  "A set of Go lenses is accepted at bind time exactly when it holds one mapper for every pair of versions that needs an explicit lens (each reverse step and each forward step to a new major) and nothing else. Missing, extra, duplicate and nil mappers are each rejected with the corresponding error, which names exactly the pairs at fault and says nothing untrue of them.",
  ["inputs", "configurations"], "every subset of every superset of the needed pairs for every lineage shape up to 4 schemas (5 thorough), plus duplicates and nil mappers at every position and every order",
  "tests bind a few sets",
  ["bind.go"], [("checkGoLensCompleteness", "bind.go")], ["BindLineage", "ImperativeLenses"]),
P("C09", "Navigation between schemas is consistent",
  "First, Latest, All, Schema lookup, Successor, Predecessor, LatestInMajor and LatestVersion agree with one ordered list of the declared versions: lookup succeeds exactly for declared versions (and reports a missing-version error otherwise), Successor and Predecessor are inverse and nil at the ends, and the same schema is reachable by every route.",
  ["inputs", "histories"], "every lineage shape up to 7 schemas (9 thorough), every version in and around the declared grid, every walk from every schema",
  "tests look up a few versions of small lineages",
  ["lineage.go", "schema.go", "surface.go"], [("schema list and Schema()", "lineage.go"), ("Successor/Predecessor/LatestInMajor", "schema.go")], ["Lineage.*", "Schema.*"]),
P("C10", "Lacunas are reported exactly as lenses emit them",
  "Translate reports exactly the lacunas emitted by the lenses on the path whose condition holds for the data being translated, with message, type and fields preserved and in path order; none from other lenses, and none when no condition holds.",
  ["inputs", "histories"], "every lineage shape up to 4 schemas, every subset of conditional lacunas triggered by the data, every lacuna type, all (from,to) pairs",
  "tests only compare goldens of two exemplars",
  ["instance.go", "lacuna.go", "lacuna.cue", "translate.cue"], [("lacuna collection", "translate.cue"), ("decode", "instance.go")], ["Instance.Translate (TranslationLacunas)"]),
P("C11", "Hydrate fills defaults, Dehydrate removes them, losing nothing",
  "Hydrating a valid instance adds exactly the schema's defaults for absent fields, at every nesting level, and changes nothing else; dehydrating removes exactly the values equal to their default, and hydrating the result again gives the hydrated instance. Both leave an instance of the same schema and are idempotent.",
  ["inputs"], "every schema of one or two fields over the leaf types, nested and in lists, with every valid probe datum",
  "tests cover few default shapes",
  ["hydrate.go", "instance.go"], [("doHydrate / doDehydrate", "hydrate.go")], ["Instance.Hydrate", "Instance.Dehydrate"]),
P("C12", "Append-only check admits exactly extensions",
  "A lineage is judged an append-only extension of another exactly when the other's schemas, versions included, are an unchanged prefix of its own.",
  ["inputs", "histories"], "every pair of lineages drawn from all edit scripts (append, drop, replace, renumber, reorder) of depth two over up to 4 schemas",
  "tests check two or three pairs",
  ["surface.go", "lineage.go"], [("IsAppendOnly", "surface.go")], ["IsAppendOnly"]),
P("C13", "Version strings parse, print and compare consistently",
  "Parsing accepts exactly strings of the form major.minor with two unsigned integers and returns that version; printing a version and parsing it back is the identity; Less is the strict total order by major, then minor.",
  ["inputs"], "every string up to 5 (7 thorough) characters over a 9-letter alphabet, boundary numbers, all pairs and triples of versions over a grid with boundary values",
  "tests parse a few strings",
  ["surface.go", "schema.go"], [("ParseSyntacticVersion / Less / String", "surface.go")], ["ParseSyntacticVersion", "SyntacticVersion.Less", "SyntacticVersion.String"]),
P("C14", "Version multiplexers deliver the requested version of whatever comes in",
  "For any bytes valid for some schema in the lineage, every multiplexer (untyped, typed, value, byte; JSON and YAML) yields what validating against that schema and translating to the requested version yields, preferring the requested version when it already fits and otherwise the newest fitting one; bytes valid for no schema, or not decodable, are an error and yield nothing (the value multiplexer: the schema's defaults) with it.",
  ["inputs", "configurations"], "every lineage shape up to 4 schemas, every target version, every datum valid for any subset of schemas, all four multiplexers, JSON and YAML, malformed bytes",
  "tests use one lineage with a few inputs",
  ["vmux/mux.go", "vmux/untyped.go", "vmux/typed.go", "vmux/value.go", "vmux/byte.go"], [("searchAndValidate-like loop", "vmux/mux.go"), ("translation to target", "vmux/untyped.go")], ["vmux.NewUntypedMux", "vmux.NewTypedMux", "vmux.NewValueMux", "vmux.NewByteMux"]),
P("C15", "A Go type is assignable exactly when it can hold every instance",
  "AssignableTo follows its documented rules: it accepts a Go type for a schema when field names, optionality, kinds, nesting and list/map structure correspond one to one as they say, and rejects every mismatch they name with an error; of the schemas that the rules do not name (disjunctions of lists, of structs and with null, mixed lists), none is held assignable to a Go type that cannot represent every instance of it; it never panics, whatever the type.",
  ["inputs", "programs"], "every schema field type x every Go field type of a complete alphabet x optional/pointer x extra/missing fields x nesting; for 50 schema types beyond the rules, every probe instance is decoded into every Go type that is accepted",
  "tests check a list of hand-written pairs",
  ["assignable.go"], [("assignable", "assignable.go")], ["AssignableTo"]),
P("C16", "Typed instances carry the instance's data and defaults",
  "Binding a Go type to a schema succeeds exactly when the type is assignable; an instance's typed value holds the data (defaults filled), and a new value of the type holds exactly the schema's defaults, fresh on every call.",
  ["inputs", "histories"], "every assignable (schema, Go type) pair of the alphabet, every valid probe datum, mutated values between calls",
  "tests check one or two lineages",
  ["schema.go", "instance.go", "bind.go", "surface.go"], [("BindType / BindInstanceType / ValueP", "surface.go")], ["BindType", "TypedInstance.Value", "TypedSchema.NewT"]),
P("C17", "Concurrent use of a lineage is safe and linearizable",
  "Goroutines may use one runtime, its lineages, schemas and instances concurrently: to bind lineages and Go types, validate, hydrate, dehydrate, translate, navigate, take typed values, examples, defaults, and run multiplexers. Every call returns what it returns when run alone, with no data race in Thema, deadlock or crash. (Not covered: evaluating the CUE values given out by Underlying() outside of Thema, and code generators.)",
  ["schedules"], "all interleavings at lock operations, up to one preemption (two, thorough), of all unordered pairs (ordered, and with values used before, thorough) of 52 public operations on one runtime and between two, under a controlled scheduler and the race detector, each compared with the operation alone",
  "tests run operations one after another",
  ["runtime.go", "instance.go", "validate.go", "bind.go", "lineage.go"], [("runtime mutex around CUE evaluation", "runtime.go")], ["all public operations"]),
P("C18", "Generated OpenAPI describes exactly the schema",
  "The OpenAPI document generated for a schema is well formed, titled with the lineage's (or the configured) name and the schema's version, and its component accepts exactly the schema's complete values: JSON values in which every non-optional field (also a defaulted one) is given and every given field satisfies its type, bounds, pattern, enum or union; undeclared fields are not described. Defaults in the document are the schema's. RootName, Subpath (a field path; one that is not in the schema is an error) and Group (one component per top-level field or definition) select and name what is described; a joinSchema is included. The document is the same whatever was generated before, also with the same Config.",
  ["inputs", "programs"], "every schema of one or two fields over 67 field types x required/optional x nesting (25,000 schemas), fields declared twice, references, joins, histories, lineage names, subpaths, groups, and every sequence of two generations with one Config; every document interpreted on every probe value and on every single-point mutation of valid instances",
  "tests compare goldens of twenty lineages; acceptance quantifies over all JSON values",
  ["encoding/openapi/oapi.go"], [("GenerateSchema", "encoding/openapi/oapi.go")], ["openapi.GenerateSchema"]),
P("C19", "Generated JSON Schema describes exactly the schema",
  "The JSON Schema (draft 4) document generated for a schema is well formed (no OpenAPI-only keywords, $schema at the root), and accepts exactly the schema's complete values: JSON values in which every non-optional field (also a defaulted one) is given and every given field satisfies its type (also null, where the schema allows it), bounds, pattern, enum or union, at every depth, through lists, maps, unions and references; undeclared fields are not described. Defaults in the document are the schema's.",
  ["inputs", "programs"], "every schema of one or two fields over 67 field types x required/optional x nesting (25,000 schemas), fields declared twice, references, joins, histories and lineage names; every document interpreted on every probe value and on every single-point mutation of valid instances",
  "tests compare goldens of twenty lineages; acceptance quantifies over all JSON values",
  ["encoding/jsonschema/jschema.go"], [("GenerateSchema", "encoding/jsonschema/jschema.go")], ["jsonschema.GenerateSchema"]),
P("C20", "Generated Go types are valid Go and match the schema",
  "The Go source that GenerateTypesOpenAPI gives for a schema parses, type-checks and imports nothing. It is in the configured package (by default: the lineage's lowercased name) and declares the schema's type, in which each schema field appears exactly once, with a JSON tag of its name, the Go type matching the schema's (string, bool, int/int32/int64, float32, slice, map, struct, any for unions of several kinds), an enum type with exactly the schema's members as constants, omitempty exactly when optional and not nullable, and a pointer exactly when optional or nullable and neither slice nor map (never with NoOptionalPointers). Definitions, nested structs, joinSchema, Subpath and Group are covered alike; comments change comments only. Where no such type can be given (two fields with one Go name, a name that is no package name) it is an error. The result is the same whatever was generated before, also with the same config.",
  ["inputs", "programs"], "every schema of one or two fields over 67 field types x required/optional x nesting, every nesting to depth 3 of lists, maps, structs and optional fields around named types, fields declared twice, references, joins, histories, lineage names, subpaths, groups, 1,656 pairs of field names, 1,152 comment placements, and every sequence of two generations (three, thorough) with one config of seven",
  "tests compare goldens of twenty lineages; that the source compiles and matches quantifies over all schemas",
  ["encoding/gocode/gen.go", "encoding/gocode/decorators.go", "encoding/gocode/postprocessing.go", "internal/deepmap/oapi-codegen/pkg/codegen/schema.go"], [("GenerateTypesOpenAPI", "encoding/gocode/gen.go"), ("GenerateGoSchema", "internal/deepmap/oapi-codegen/pkg/codegen/schema.go")], ["gocode.GenerateTypesOpenAPI"]),
P("C21", "Generated TypeScript declares exactly the schema's fields",
  "The TypeScript generated for a schema is well formed and declares exactly one root type, named by RootName (by default: the title-cased lineage name), whose members are exactly the schema's fields, optional exactly when the schema's are, with the corresponding primitive, literal, union, array, record or nested type, and a constant default<Name> with exactly the defaults of its fields (also [] for lists), if there are any. Definitions annotated with a cuetsy kind are declared once, as that kind, and referred to by name; with Group only they are. Types that have no TypeScript counterpart (string length bounds) are refused. The result is the same whatever was generated before, also with the same config.",
  ["inputs", "programs"], "every schema of one or two fields over 67 field types x required/optional x nesting, joins of non-unions, histories, lineage names, annotated definitions of every type in eight places with and without Group, and every sequence of two (four, thorough) generations with one config of five",
  "tests compare goldens of twenty lineages",
  ["encoding/typescript/gen.go"], [("GenerateTypes", "encoding/typescript/gen.go")], ["typescript.GenerateTypes"]),
P("C22", "Lineage authoring tools produce lineages equivalent to their input",
  "For every schema, however it is written down (with imports, comments, definitions, references) and wherever it was looked up, the lineage NewLineage makes of it has the given name and package, loads and binds, and has one schema, 0.0, which accepts and hydrates exactly what the input does. Rewriting a legacy (seqs) lineage gives a file that loads, leaves the rest of the file as it was, and whose lineage binds with the same schemas in order under the same versions, and whose lenses between majors give the same translations and lacunas as the legacy ones; lenses between minors, which the legacy form did not have, are left as stubs to be written. What cannot be converted is reported as an error.",
  ["programs", "histories"], "every schema body of the alphabet and every way to write it down as the initial schema; every legacy lineage of up to 3 sequences x 3 schemas x 9 places x 9 ways to write lenses x 3 lacuna forms",
  "tests cover a handful of goldens",
  ["encoding/cue/encode.go", "encoding/cue/rewrite.go", "internal/astutil"], [("NewLineage / RewriteLegacyLineage", "encoding/cue")], ["cue.NewLineage", "cue.RewriteLegacyLineage", "thema lineage init", "thema lineage fix"]),
P("C23", "The command line tool agrees with the library",
  "The thema command finds the lineage its flags name (-l a file or directory, -p a path in it, wherever it lies: in or outside a CUE module, in a package of several files, relative to any working directory). Its data commands (validate, validate-any, hydrate, translate) accept exactly the data the library accepts, given as an argument or on standard input, as JSON or YAML, tell the verdict by the exit status, and print the library's data and lacunas in the requested encoding. lineage gen openapi, jsonschema and gotypes give what the library generates for the requested version, in the requested format and place. lineage init makes, of an OpenAPI or JSON Schema document or of nothing, a lineage whose schema accepts what the document does. lineage fix rewrites legacy lineages in place, so that they translate as before, and leaves other files alone. Whatever fails exits with status 1 and a message and writes nothing.",
  ["inputs", "configurations"], "every combination of command, version flag, way of giving data, encoding and datum class for one lineage; every place a lineage can lie at (modules, directories, files, paths) for every command; every document of the schema alphabet for init; every layout of legacy lineages for fix",
  "the commands have no tests",
  ["cmd/thema/data.go", "cmd/thema/load.go", "cmd/thema/lineage_subgen.go", "cmd/thema/lineage_init.go", "cmd/thema/lineage_fix.go", "load/load.go"], [("data commands", "cmd/thema/data.go"), ("lineage commands", "cmd/thema/lineage.go")], ["thema data ...", "thema lineage ..."]),
P("C24", "Results do not depend on history",
  "The result of binding, validating, translating or navigating is a function of its inputs only: it is the same whatever operations, successful or failing, were performed before on the same runtime or lineage.",
  ["histories"], "every sequence of up to 3 (4 thorough) operations from an alphabet of valid and failing binds, validations, translations and lookups on shared state, compared with the same operation on fresh state",
  "tests use fresh state per case",
  ["bind.go", "runtime.go", "lineage.go", "instance.go"], [("shared cue.Context, runtime and lineage state", "runtime.go")], ["all public operations"]),
P("C25", "Generated Go bindings give the lineage",
  "The Go source that GenerateLineageBinding gives compiles, in the configured package (by default: the lineage's lowercased name), and declares a factory named Lineage, with the title-cased lineage name or TitleName as suffix if FactoryNameSuffix is set, and do- prefixed if PrivateFactory is. Called with a runtime, the factory loads the embedded CUE (through the generated or, where EmbedPath, CueModName or LoadDir are not set, the user's functions), looks up CuePath, and returns the lineage declared there, bound on that runtime with the given options; with an Assignee T or *T it returns a ConvergentLineage whose typed schema is that of TargetSchemaVersion. The same holds of the files that 'thema lineage gen gobindings' writes beside a lineage in a Go module, wherever that lineage, its CUE package and a CUE module are, and with the options corresponding to its flags (version default: latest).",
  ["configurations", "programs"], "every combination of suffix/title, privacy, assignee (none, T, *T), target version, lineage path, package name, AST functions and embedding mode (five) for two (four, thorough) lineage names; and, for the command, every place of the CUE module (none, Go module root, lineage directory) x CUE package name x file or directory argument x neighbouring files x absolute and relative path, with flags: each binding is compiled against the working tree and called",
  "the generator has no tests",
  ["encoding/gocode/gen.go", "encoding/gocode/binding.tmpl", "load/load.go", "cmd/thema/lineage_subgen.go"], [("GenerateLineageBinding", "encoding/gocode/gen.go")], ["gocode.GenerateLineageBinding"]),
P("C26", "The loader loads exactly the requested CUE package",
  "InstanceWithThema, given a file system with a CUE module, a directory and possibly a package name, gives the instance of that package (by default: named as the directory, or as the last element of the module name for the root) with the content of exactly its files in that directory and, as CUE has it, its parents, and makes github.com/grafana/thema importable, so that lineages in it build and bind; other packages, directories and modules in the tree have no influence unless imported. File systems that are not a named CUE module, or that already have thema in cue.mod/pkg, are refused with ErrFSNotACueModule. AsModFS adds a module file exactly when there is none and changes nothing else.",
  ["inputs", "configurations"], "every subset of eight files in three directories and four packages x module names x directories x package options (9,000 trees, 60,000 thorough), every way of declaring and importing a lineage, malformed modules, every subset of five files for AsModFS",
  "the package has no tests",
  ["load/load.go", "internal/util/util.go"], [("InstanceWithThema / AsModFS", "load/load.go")], ["load.InstanceWithThema", "load.AsModFS"]),
P("C27", "The exemplar lineages do what they describe",
  "exemplars.All gives, on the given runtime, exactly the exemplar lineages by name, and each exemplar factory gives the same lineage, with whatever bind options. Each exemplar has the schemas its file declares, accepts exactly the data it describes, and every valid datum translates to every schema with the data and lacunas its description promises: rename renames one field and keeps the other; narrowing turns boolish strings and booleans into booleans and reports a lossy mapping for other strings only; expand drops the newer fields and falls back to the default for a value the older schema lacks; defaultchange maps the old default to the new and back, reports that as a changed default, and keeps other values; disjunct replaces the branch the older schema lacks by the filler and keeps the others.",
  ["inputs"], "every combination of field values of each exemplar's data alphabet x four ways to get the lineage x every schema x every target schema, against reference functions",
  "the tests only bind the exemplars",
  ["exemplars/exemplars.go", "exemplars/*.cue", "instance.go"], [("exemplars", "exemplars/exemplars.go")], ["exemplars.All", "exemplars.*Lineage", "exemplars.CueFS", "Instance.Translate"]),
P("C28", "Validation errors say what is wrong and where",
  "The error that Schema.Validate gives for data that is not an instance names the lineage and the schema's version, and for every failure the path in the data: nothing is named where the data is right, and every field that conflicts with the schema (or, if none does, every required field that is missing) is named. What the error says the data contained is what the data has at that path, never the schema's value, wherever the lineage lies in its file and whether the data is JSON, YAML or CUE; fields reported absent are absent (or do not decide between union branches); positions listed for the schema lie in CUE files, those for the data in the data's file.",
  ["inputs"], "every schema of one field (also optional, nested, in lists, under odd names) over the type alphabet and every pair of fields x every combination of probe values x five places of the lineage x versions x six names and encodings of the data",
  "a handful of golden messages",
  ["validate.go", "schema.go", "errors/errors.go"], [("mungeValidateErr", "validate.go")], ["Schema.Validate"]),
]

BUILT = open(os.path.join(V, "tools", "built.txt")).read().split()

NOTES = {
 "C02": "Known deviations of the compatibility analysis (CUE subsumption) are listed case by case in known_findings.jsonl; every other pair is decided.",
}
TECH = {
 "C17": "stateless model checking of the implementation: all interleavings at lock operations under a controlled scheduler, preemption-bounded",
 "C07": "explicit-state model checking with exhaustive fault enumeration against a reference model, replayed on the implementation",
 "C24": "exhaustive enumeration of operation histories on the implementation, compared with fresh-state runs",
}

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, note in PROPS:
        i = p["id"]
        if i in BUILT:
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, "bounded exhaustive model checking: complete enumeration of a bounded space on the real code against an independent reference model"),
                level="model_checking",
                level_note="Complete within the bounds in evidence (rule, states, exhaustive). Assumes the reference model in harness/ states the intended semantics; nothing is claimed outside the bounds. " + NOTES.get(i, "")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "model checking applies; the check is not built yet")))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the harness is compiled into /repo's module through go build -overlay.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
NA = {}
if __name__ == "__main__":
    main()
