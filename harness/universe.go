package main

// The alphabet of field types shared by the checks. Order: simplest first.

var (
	tString = Scalar{"string"}
	tInt    = Scalar{"int"}
	tBool   = Scalar{"bool"}
	tFloat  = Scalar{"float"}
	tNumber = Scalar{"number"}
	tNull   = Scalar{"null"}
	tAny    = Scalar{"_"}
)

type namedTy struct {
	Name string
	T    Ty
}

func st(fs ...Field) Struct    { return Struct{F: fs} }
func req(n string, t Ty) Field { return Field{Name: n, T: t} }
func opt(n string, t Ty) Field { return Field{Name: n, Opt: true, T: t} }
func arr(v ...any) []any       { return append([]any{}, v...) }
func obj(kv ...any) map[string]any {
	m := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

// leafTypes are the field types over which schemas are built.
var leafTypes = []namedTy{
	{"string", tString},
	{"int", tInt},
	{"bool", tBool},
	{"float", tFloat},
	{"number", tNumber},
	{"null|string", Or{[]Ty{tNull, tString}}},
	{"1..3", Range{1, 3, "int & >=1 & <=3"}},
	{"uint8", Range{0, 255, "uint8"}},
	{"int32", Range{-2147483648, 2147483647, "int32"}},
	{"int64", Range{-9223372036854775808, 9223372036854775807, "int64"}},
	{"pat", Pattern{`=~"^a"`, "a"}},
	{"enum", Enum{[]any{"a", "b"}}},
	{"enum3", Enum{[]any{"a", "b", "c"}}},
	{"enumdef", Def{"a", Enum{[]any{"a", "b"}}}},
	{"enumdefb", Def{"b", Enum{[]any{"a", "b"}}}},
	{"intdef", Def{Num("4"), tInt}},
	{"strdef", Def{"zz", tString}},
	{"booldef", Def{true, tBool}},
	{"const", Const{"k"}},
	{"str|int", Or{[]Ty{tString, tInt}}},
	{"[...string]", List{tString}},
	{"[...int]", List{tInt}},
	{"[int,string]", Tuple{[]Ty{tInt, tString}}},
	{"map", Map{tInt}},
	{"{x:int}", st(req("x", tInt))},
	{"{x?:int}", st(opt("x", tInt))},
	{"{x:def}", st(req("x", Def{Num("1"), tInt}))},
	{"{x:int,...}", Struct{F: []Field{req("x", tInt)}, Open: true}},
	{"[...{x:int}]", List{st(req("x", tInt))}},
	{"[...{x:def}]", List{st(req("x", Def{Num("1"), tInt}))}},
	{"disc", Or{[]Ty{st(req("k", Const{"p"}), req("x", tInt)), st(req("k", Const{"q"}), opt("y", tString))}}},
	{"any", tAny},
}

type absentT struct{}

// absent marks a field that is not in the data.
var absent = absentT{}

// probe values: every leaf type above has members and non-members among them.
var probeValues = []any{
	absent, nil, true, false, "", "a", "b", "c", "k", "zz", "abc",
	Num("0"), Num("1"), Num("3"), Num("4"), Num("-1"), Num("255"), Num("256"), Num("2147483648"), Num("9223372036854775808"),
	Num("1.5"), Num("1.0"),
	arr(), arr("a"), arr("a", "b"), arr(Num("1")), arr(Num("1"), "s"), arr(Num("1"), "s", true), arr("a", Num("1")), arr(nil),
	arr(obj("x", Num("1"))), arr(obj()), arr(obj("x", Num("1")), obj("x", "s")), arr(obj("x", Num("2")), obj()), arr(obj("x", Num("1"), "w", Num("1"))),
	obj(), obj("x", Num("1")), obj("x", Num("2")), obj("x", "s"), obj("x", nil), obj("w", Num("1")), obj("x", Num("1"), "w", Num("1")), obj("x", Num("1"), "w", "s"),
	obj("k", "p", "x", Num("1")), obj("k", "q", "y", "s"), obj("k", "q"), obj("k", "p", "y", "s"), obj("k", "r"),
}

func probeStr(v any) string {
	if v == absent {
		return "<absent>"
	}
	return lit(v)
}
