#!/usr/bin/env python3
"""Writes the catalogue of declared Go types the harness draws from.

usage: gencat.py SEED [SCALE [FRESH]] > catalog_gen.go

The first part is systematic (every kind with every sort of marshaling method
and receiver), the second part is drawn from SEED (embedded structs, tags,
recursive groups).
"""
import random, sys

seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
scale = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
nfresh = int(sys.argv[3]) if len(sys.argv) > 3 else 0
rnd = random.Random(seed)
out = []
lists = {k: [] for k in (
    "catMeth", "catMethIface", "catKeys", "catNamed", "catEmbed", "catRec", "catIface", "catBadKeys", "catByte", "catOmit", "catFresh", "catEmbM")}


def emit(s):
    out.append(s)


def methods(name, recv, ms, kind=None):
    """recv: 'v' or 'p'; ms: letters of J T A C"""
    for m in ms:
        r = f"(r {name})" if recv == "v" else f"(r *{name})"
        arg = "r" if recv == "v" else f"deref(r)"
        if m == "J":
            emit(f'func {r} MarshalJSON() ([]byte, error) {{ return resJ("{name}", {arg}) }}')
        elif m == "T":
            emit(f'func {r} MarshalText() ([]byte, error) {{ return resT("{name}", {arg}) }}')
        elif m == "A":
            emit(f'func {r} AppendJSON(b []byte) ([]byte, error) {{ return resA("{name}", {arg}, b) }}')
        elif m == "C":
            emit(f'func {r} AppendJSONContext(c context.Context, b []byte) ([]byte, error) {{ return resC("{name}", {arg}, c, b) }}')


# ---- kinds with marshaling methods ----
KINDS = {
    "Bool": "bool", "Int": "int", "I8": "int8", "U64": "uint64", "Str": "string", "F64": "float64",
    "St": "struct { A int; B string }", "St0": "struct{}", "St1p": "struct { P *int }", "St1m": "struct { M map[string]int }",
    "Map": "map[string]int", "Func": "func()", "Sl": "[]int", "Ar": "[2]int", "Ar1p": "[1]*int", "Chan": "chan int", "By": "[]byte",
    "StB": "struct { A, B, C int64; S []string }", "St1f": "struct { F func() }", "StN": "struct { In struct { P *string } }", "Ar1s": "[1]struct { P *int }",
    "Ar0": "[0]int", "U8": "uint8", "ByA": "[3]byte",
}
SINGLES = ["J", "T", "A", "C"]
COMBOS = ["JT", "AJ", "CA", "CAJT", "AT", "CJ", "CT"]
for kn, kt in KINDS.items():
    for recv in "vp":
        sets = SINGLES + (rnd.sample(COMBOS, 2) if kn not in ("Int", "St", "Map", "St1p") else COMBOS)
        for ms in sets:
            n = f"M{kn}{recv.upper()}{ms}"
            emit(f"type {n} {kt}")
            methods(n, recv, ms)
            if kn == "U8":
                lists["catByte"].append(n)
            else:
                lists["catMeth"].append(n)
            if kn in ("Bool", "Int", "I8", "U64", "Str", "F64", "St", "St0", "St1p", "Ar", "Ar1p", "Ar0", "ByA"):
                if recv == "v" and "T" in ms:
                    lists["catKeys"].append(n)
                elif kn in ("Int", "U64", "Str"):
                    lists["catKeys"].append(n)      # methods other than MarshalText do not matter
                else:
                    lists["catBadKeys"].append(n)
# keys of every kind of integers, and of strings, that are texts
for g in ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "string"]:
    for recv in "vp":
        n = f"KT{g.title()}{recv.upper()}"
        emit(f"type {n} {g}")
        methods(n, recv, "T")
        lists["catKeys"].append(n)
        if recv == "v":
            lists["catKeys"].append(n)
# mixed receivers
for i, (kn, vm, pm) in enumerate([("St", "T", "J"), ("Int", "J", "A"), ("Map", "T", "C"), ("Str", "A", "J"), ("Ar", "T", "CA"), ("St1p", "J", "C"), ("Sl", "J", "T"), ("Int", "T", "J"), ("St", "C", "A"), ("Func", "J", "C")]):
    n = f"X{kn}{vm}{pm}"
    emit(f"type {n} {KINDS[kn]}")
    methods(n, "v", vm)
    methods(n, "p", pm)
    lists["catMeth"].append(n)

# promoted methods
for i, e in enumerate(["MIntVJ", "MIntPJ", "MStVT", "MStPA", "MMapVJ", "MFuncVA", "MSt1pVC", "MStrPT", "MSt1pPJ", "MAr1pVJ"]):
    n = f"P{i}{e}"
    emit(f"type {n} struct {{ {e} }}")
    lists["catMeth"].append(n)
    n = f"Q{i}{e}"
    emit(f"type {n} struct {{ *{e} }}")
    lists["catMeth"].append(n)
    n = f"S{i}{e}"
    emit(f"type {n} struct {{ {e}; Z int }}")
    lists["catMeth"].append(n)

# interfaces
emit("""
type IFoo interface { Foo() int }
type IFooJ interface { Foo() int; MarshalJSON() ([]byte, error) }
type IFooT interface { Foo() int; MarshalText() ([]byte, error) }
type IAny interface{}
type IJ interface { MarshalJSON() ([]byte, error) }
type IT interface { MarshalText() ([]byte, error) }
type IA interface { AppendJSON([]byte) ([]byte, error) }
type IC interface { AppendJSONContext(context.Context, []byte) ([]byte, error) }
type ITJ interface { MarshalText() ([]byte, error); MarshalJSON() ([]byte, error) }
""")
lists["catIface"] += ["IFoo", "IFooJ", "IFooT", "IAny", "IJ", "IT", "IA", "IC", "ITJ"]
for i, (kt, recv, ms) in enumerate([("int", "v", ""), ("struct { A int; b string }", "p", ""), ("map[string]bool", "v", ""), ("struct { P *int }", "v", ""), ("func()", "v", "J"),
                                    ("[1]*string", "v", ""), ("[]int", "p", ""), ("string", "v", "J"), ("struct { A int }", "p", "J"), ("int8", "v", "T"), ("struct { X, Y float64 }", "v", "J"), ("map[string]int", "p", "T"), ("struct { S string }", "v", "T")]):
    n = f"Foo{i}"
    emit(f"type {n} {kt}")
    emit(f"func (r {'*' if recv == 'p' else ''}{n}) Foo() int {{ return {i} }}")
    methods(n, recv, ms)
    lists["catMethIface"].append(n)
# pointers with names, named interface fields, embedded interfaces
emit("type NPtr *int\ntype NPtrSt *struct { A int; B *string }\ntype NPP **int")
emit("type EmbIface struct { IFoo; A int }\ntype EmbIfaceJ struct { IJ }\ntype EmbIfaceT struct { IT; Z string }\ntype EmbAny struct { IAny; B int }")
lists["catNamed"] += ["NPtr", "NPtrSt", "NPP", "EmbIface", "EmbAny"]
# the same for the types that are treated specially, and structs that embed these
emit("type NPDur *time.Duration\ntype NPNum *json.Number\ntype NPTime *time.Time\ntype NPRaw *json.RawMessage\ntype NPMJ *MIntVJ\ntype NPMT *MStPT")
emit("type EDur struct { time.Duration; X int }\ntype ENum struct { json.Number `json:\",string\"`; A *string }\ntype ETime struct { time.Time; X int }\n"
     "type ERaw struct { A int; json.RawMessage }\ntype EAmb struct { time.Time; json.RawMessage }\ntype EDurP struct { *time.Duration `json:\"d,omitempty\"` }\n"
     "type ENDur struct { NDur; NPDurH }\ntype NPDurH struct { D NPDur; N *json.Number `json:\",string,omitempty\"` }")
lists["catNamed"] += ["NPDur", "NPNum", "NPTime", "NPRaw", "NPMJ", "NPMT", "EDur", "ENum", "EDurP", "ENDur", "NPDurH"]
lists["catMeth"] += ["ETime", "ERaw", "EAmb"]
lists["catMethIface"] += ["EmbIfaceJ", "EmbIfaceT"]

# fields with pointer methods, reached through embedded structs and pointers
for i in range(6):
    ms = rnd.sample([m for m in lists["catMeth"] if m[0] == "M" and "P" in m[3:]], 3)
    a, b = rnd.choice(["", "[1]"]), rnd.choice(["", "[2]", "*"])
    emit(f"type EM{i}a struct {{ A {a}{ms[0]}; B {b}{ms[1]} `json:\",omitempty\"`; C int }}")
    emit(f"type EM{i}b struct {{ *EM{i}a; D {ms[2]} }}")
    emit(f"type EM{i}c struct {{ E {ms[1]}; {rnd.choice(['', '*'])}EM{i}b }}")
    emit(f"type EM{i}d struct {{ EM{i}a; F *{ms[0]} }}")
    lists["catEmbM"] += [f"EM{i}{c}" for c in "abbccd"]

# named plain kinds
PLAIN = {"NBool": "bool", "NInt": "int", "NI8": "int8", "NI16": "int16", "NI32": "int32", "NI64": "int64", "NUint": "uint", "NU8": "uint8", "NU16": "uint16", "NU32": "uint32", "NU64": "uint64",
         "NUptr": "uintptr", "NF32": "float32", "NF64": "float64", "NStr": "string", "NSl": "[]int", "NMap": "map[string]int", "NAr": "[2]string", "NBytes": "[]byte", "NBytes2": "[]NU8", "NByAr": "[4]byte",
         "NByAr2": "[3]NU8", "NDur": "time.Duration", "NTime": "time.Time", "NNum": "json.Number", "NRaw": "json.RawMessage", "NSt1p": "struct { P *int }", "NSt1m": "struct { M map[string]int `json:\"m\"` }",
         "NAr1p": "[1]*string", "NAr1m": "[1]map[string]int", "NSt2": "struct { In struct { P *int `json:\",omitempty\"` } }", "NSt1i": "struct { I interface{} }", "NMapS": "map[NStr]NSl", "NSt0": "struct{}", "NAr0": "[0]string",
         "NSt1ar": "struct { A [1]*int }", "NSt1pp": "struct { P **string }", "NAr1st": "[1]struct { M map[string]bool }"}
for n, t in PLAIN.items():
    emit(f"type {n} {t}")
    lists["catNamed"].append(n)
lists["catByte"] += ["NU8"]

# keys
emit("type KStruct struct { A, B int }\nfunc (k KStruct) MarshalText() ([]byte, error) { return resT(\"KStruct\", k) }")
emit("type KPlain struct { A int }")
lists["catKeys"] += ["KStruct", "NStr", "NInt", "NI8", "NU16", "NUptr", "NU64"]
lists["catBadKeys"] += ["KPlain", "NBool", "NF64", "NF32", "NAr"]

# ---- random structs with embedding ----
FN = ["A", "B", "C", "D", "E", "F"]
TAGN = ["a", "b", "c", "A", "B", "x", "y-z", "é", "n<>&", "a.b", "$%&/", "日本", "C"]
SIMPLE = ["int", "string", "bool", "float64", "*int", "[]int", "map[string]int", "interface{}", "*string", "[2]bool", "uint8", "[]byte", "NStr", "NInt", "time.Duration", "json.Number", "*bool", "float32", "int64"]
OPTS = ["", "", "", ",omitempty", ",omitnil", ",string", ",omitempty,string", ",omitempty,omitnil", ",omitnil,string", ",bogus", ","]
BADTAG = ["-", "-,", "a,b", "q\\\\\\\"", "a b", "x'y", "!#$%&()*+-./:;<=>?@[]^_{|}~ ", " ", "\U0001F600", "x\U0001F600"]


def tag():
    r = rnd.random()
    if r < 0.55:
        return ""
    if r < 0.62:
        b = rnd.choice(BADTAG)
        return ' `json:"%s"`' % (b.replace("`", ""))
    n = rnd.choice(TAGN) if rnd.random() < 0.6 else ""
    return ' `json:"%s%s"`' % (n, rnd.choice(OPTS))


NE = int(46 * scale)
emb = []
nonstruct = ["NStr", "NInt", "NSl", "lowInt", "lowMap", "IFoo", "IAny"]
emit("type lowInt int\ntype lowMap map[string]int")
for i in range(NE):
    low = rnd.random() < 0.3
    n = ("e%d" if low else "E%d") % i
    nf = rnd.randint(0, 4)
    fs = []
    used = set()
    for _ in range(nf):
        r = rnd.random()
        if r < 0.5 and emb:
            # prefer recent types, so that chains get deep; and the same ones, so that names collide
            e = rnd.choice(emb[-8:] if rnd.random() < 0.7 else emb)
            if e in used:
                continue
            used.add(e)
            star = "*" if rnd.random() < 0.35 else ""
            tg = tag() if rnd.random() < 0.25 else ""
            fs.append(f"{star}{e}{tg}")
        elif r < 0.56:
            e = rnd.choice(nonstruct)
            if e in used:
                continue
            used.add(e)
            star = "*" if e[0] in "Nl" and rnd.random() < 0.3 else ""
            fs.append(f"{star}{e}{tag()}")
        else:
            f = rnd.choice(FN)
            if rnd.random() < 0.12:
                f = f.lower()
            if f in used:
                continue
            used.add(f)
            fs.append(f"{f} {rnd.choice(SIMPLE)}{tag()}")
    emit(f"type {n} struct {{\n\t" + "\n\t".join(fs) + "\n}")
    emb.append(n)
    if nf:
        lists["catEmbed"].append(n)
# hand-made classics
emit("""
type D1 struct { X int }
type D2 struct { X int }
type D3 struct { D1; D2 }
type D4 struct { D1; D2; X string }
type D5 struct { D3; Y int }
type D6 struct { D5; D1 }
type D7 struct { D8a; D8b }
type D8a struct { Z int `json:"z"` }
type D8b struct { Zz int `json:"z"`; Y string }
type D9 struct { D10a; D10b }
type D10a struct { Name int `json:"N"` }
type D10b struct { N string }
type D11 struct { D12; A int `json:"B"` }
type D12 struct { B int }
type D13 struct { B int; A int `json:"B"` }
type D14 struct { *D15; *D16 }
type D15 struct { V int; *D17 }
type D16 struct { W int; *D17 }
type D17 struct { U int; T string }
type D18 struct { *D18; A int; B string }
type D19 struct { *d20; A int }
type d20 struct { B int; c int; D *string }
type D21 struct { d20 `json:"d"`; A int }
type D22 struct { D1 `json:"d1"`; D2 `json:",omitempty"` }
type D23 struct { D24; D25; D26; D27 }
type D24 struct { A, B, C int }
type D25 struct { B, D int }
type D26 struct { C, E int; D27 }
type D27 struct { F int; G *D24 }
type D28 struct { D29 }
type D29 struct { D30 }
type D30 struct { D31; A int }
type D31 struct { D32; B int }
type D32 struct { D33; C int }
type D33 struct { D34; D int }
type D34 struct { E int }
type D35 struct { D36; D37 }
type D36 struct { D38 }
type D37 struct { D38 }
type D38 struct { Q int }
type D39 struct { A int; D40; B int; D41; C int }
type D40 struct { A string; X int; D42; Y int }
type D41 struct { B string; Z int; D43; W int }
type D42 struct { V1, V2 int }
type D43 struct { V3, V4 int }
""")
for i in list(range(1, 44)):
    for c in ("D%d" % i,):
        if i in (8, 10, 20):
            continue
        lists["catEmbed"].append(c)
lists["catEmbed"] += ["D8a", "D8b", "D10a", "D10b"]

# ---- recursive types ----
emit("""
type RList struct { V int; Next *RList `json:",omitempty"` }
type RTree struct { V string; L, R *RTree }
type RSl []RSl
type RMap map[string]RMap
type RPtr *RPtr
type RAr [2]*RAr
type RSlP []*RSlP
type RMapS map[string][]RMapS
type RKids struct { Name string; Kids []RKids }
type RKidsM struct { M map[string]RKidsM; P *RKidsM; S []*RKidsM; A [1]*RKidsM; I interface{} }
type RMutA struct { B *RMutB; X int }
type RMutB struct { A []RMutA; Y string; M map[int]*RMutA }
type RAnon struct { S struct { R *RAnon; N int } }
type REmb struct { *REmb; A int; B string }
type REmb2 struct { REmb3; Z *REmb2 }
type REmb3 struct { Q *REmb2; W int }
type RSlSt []RSlStE
type RSlStE struct { R RSlSt; N int }
type RMapSl map[string]RSlMap
type RSlMap []RMapSl
type RArSl [1]RArSlE
type RArSlE []RArSl
type RPPtr struct { P **RPPtr; N int8 }
type RIf struct { I interface{}; N *RIf }
type RSt1 struct { P *RSt1 }
type RArM [1]map[string]RArM
type RPtrMap *map[string]RPtrMap
type RPtrSl *[]RPtrSl
type RM1 struct { M map[string]RM1 }
type RDeep struct { A struct { B struct { C []map[string]*RDeep } } }
""")
lists["catRec"] += "RList RTree RSl RMap RPtr RAr RSlP RMapS RKids RKidsM RMutA RMutB RAnon REmb REmb2 RSlSt RMapSl RSlMap RArSl RPPtr RIf RSt1 RArM RPtrMap RPtrSl RM1 RDeep".split()
# large ones, long chains of types
emit("type RBigA struct { *RBigB; " + "; ".join(f"F{i} int8" for i in range(70)) + "; N *RBigA `json:\",omitempty\"` }")
emit("type RBigB struct { *RBigA; Y int; L []RBigB }")
emit("type RBigC struct { " + "; ".join(f"F{i} *RBigC `json:\",omitempty\"`" for i in range(40)) + "; M map[string]RBigC }")
for k in range(36):
    emit(f"type RCh{k} struct {{ *RCh{(k + 1) % 36}; V{k % 7} int8 }}")
    emit(f"type RCn{k} struct {{ N *RCn{(k + 1) % 36}; V uint8 }}" if k % 3 else f"type RCn{k} []RCn{k + 1}")
lists["catRec"] += ["RBigA", "RBigB", "RBigC", "RCh0", "RCh20", "RCn0", "RCn1"]
NG = int(10 * scale)
for g in range(NG + nfresh):
    fresh = g >= NG
    k = rnd.randint(2, 5) if fresh else rnd.randint(1, 4)
    ns = [f"G{g}x{j}" for j in range(k)]

    def ref(d):
        """a type expression through which a type may refer to itself"""
        n = rnd.choice(ns)
        r = rnd.random()
        if d <= 0:
            return rnd.choice(["*", "[]", "map[string]"]) + n
        if r < 0.2:
            return "*" + ref(d - 1)
        if r < 0.4:
            return "[]" + ref(d - 1)
        if r < 0.6:
            return "map[string]" + ref(d - 1)
        if r < 0.75:
            return "[%d]%s" % (rnd.choice([1, 1, 2]), ref(d - 1))
        if r < 0.9:
            return "struct { X %s; N int }" % ref(d - 1)
        return rnd.choice(["*", "[]", "map[int]"]) + n

    structs = [n for n in ns if rnd.random() < 0.65]
    for j, n in enumerate(ns):
        if n in structs:
            fs = []
            if rnd.random() < 0.3:
                fs.append("*" + rnd.choice(structs))
            for f in rnd.sample(FN, rnd.randint(1, 3)):
                fs.append(f"{f} {ref(rnd.randint(0, 2)) if rnd.random() < 0.7 else rnd.choice(SIMPLE)}" + (tag() if rnd.random() < 0.3 else ""))
            emit(f"type {n} struct {{\n\t" + "\n\t".join(fs) + "\n}")
        else:
            emit(f"type {n} {ref(rnd.randint(0, 2))}")
        if not fresh:
            lists["catRec"].append(n)
    if fresh:
        lists["catFresh"] += rnd.sample(ns, min(len(ns), 3))

# ---- omission ----
emit("""
type OmJV int
type OmJP struct { A int }
type OmM map[string]int
type OmS []int
func (o OmJV) MarshalJSON() ([]byte, error) { return resNull("OmJV", o, int(o)%2 == 0) }
func (o *OmJP) MarshalJSON() ([]byte, error) { if o == nil { return []byte("null"), nil }; return resNull("OmJP", *o, o.A%2 == 0) }
func (o OmM) MarshalJSON() ([]byte, error) { return resNull("OmM", o, len(o) == 0) }
func (o OmS) MarshalJSON() ([]byte, error) { return resNull("OmS", o, len(o)%2 == 0) }
""")
lists["catOmit"] += ["OmJV", "OmJP", "OmM", "OmS"]

# ---- different types of the same name: declared in different functions ----
rn2 = random.Random(seed * 7 + 3)
NT = 6
for i in range(NT):
    body = []
    for n in ("T0", "T1", "T2", "T3"):
        r = rn2.random()
        fs = []
        for f in rn2.sample(FN, rn2.randint(1, 4)):
            ft = rn2.choice(SIMPLE + ["*" + n, "[]" + n, "map[string]" + n] + [m for m in ("T0", "T1", "T2") if m < n])
            fs.append(f"{f} {ft}" + (rn2.choice([' `json:"x"`', ' `json:",omitempty"`', ' `json:"A,string"`']) if rn2.random() < 0.25 else ""))
        if n > "T0" and rn2.random() < 0.5:
            fs.insert(rn2.randint(0, len(fs)), rn2.choice(["", "*"]) + "T0")
        st = "struct { " + "; ".join(fs) + " }"
        if n in ("T2", "T3") and r < 0.6:
            st = rn2.choice(["[]%s", "map[string]%s", "[2]%s", "*%s", "[]*%s", "%s"]) % rn2.choice(["T0", "T1", "int", "string", "float32", "uint8", "bool"])
        body.append(f"\ttype {n} {st}")
    for n in ("U0", "U1"):
        body.append(f"\ttype {n} " + rn2.choice(["string", "int64", "uint8", "bool", "float32", "[]int", "map[string]int", "*int", "interface{}", "[0]int", "[2]bool", "float64", "int", "[]byte"]))
    body.append("\ttype W struct { X U0 `json:\",omitempty\"`; Y U1 `json:\",omitempty\"`; Z int `json:\",omitnil,string\"` }")
    emit(f"func twins{i}() []reflect.Type {{\n" + "\n".join(body) + "\n\treturn []reflect.Type{reflect.TypeOf(T0{}), reflect.TypeOf(T1{}), reflect.TypeOf((*T2)(nil)).Elem(), reflect.TypeOf((*T3)(nil)).Elem(), reflect.TypeOf(W{}), reflect.TypeOf((*U0)(nil)).Elem(), reflect.TypeOf((*U1)(nil)).Elem()}\n}")
tw = "join(" + ", ".join(f"twins{i}()" for i in range(NT)) + ")"
emit(f"var catTwins = {tw}")

print("// Code generated by gencat.py; seed %d.\n\npackage main\n\nimport (\n\t\"context\"\n\t\"encoding/json\"\n\t\"reflect\"\n\t\"time\"\n)\n" % seed)
print("\n".join(out))
for k, v in lists.items():
    print(f"\nvar {k} = join([]reflect.Type{{")
    for n in v:
        print(f"\treflect.TypeOf((*{n})(nil)).Elem(),")
    print("}, catTwins)" if k == "catRec" else "}, filter(catTwins, isStructOrIface))" if k == "catEmbed" else "})")
