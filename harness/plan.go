package main

// Replays the plans that the bounded models write: every line is one case.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
)

type planLine struct {
	Z string
	S json.RawMessage
}

var planLines []planLine

// schedules (see sched.go)
var (
	planSched func(*H, planLine)
	planPairs func(*H, planLine)
	inTurns   func(*H, []*hCase, int)
)

func loadPlan(path string) {
	f, err := os.Open(path)
	check(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var l planLine
		check(json.Unmarshal(sc.Bytes(), &l))
		planLines = append(planLines, l)
	}
	check(sc.Err())
}

type ints []int // bytes, as numbers

func (s ints) str() string {
	b := make([]byte, len(s))
	for i, c := range s {
		b[i] = byte(c)
	}
	return string(b)
}

func (l planLine) into(x interface{}) { check(json.Unmarshal(l.S, x)) }

func (l planLine) strs() (r []string) {
	var s []ints
	l.into(&s)
	for _, x := range s {
		r = append(r, x.str())
	}
	return
}

// many makes one call for every value, all with the same options.
func (h *H) many(vs []interface{}, items []optItem, strict bool) {
	// All values are described before the first call: what a call does to the
	// memory of its value is seen by the next ones.
	var nodes [][]byte
	var ws []interface{}
	for _, v := range vs {
		n, ok := h.node(v, items)
		if !ok {
			continue
		}
		nodes = append(nodes, n)
		ws = append(ws, v)
	}
	var rs []callRes
	for _, v := range ws {
		rs = append(rs, guard(marshal(v, items)))
	}
	h.emit("many", func(w *jw) {
		w.raw(`"ty":`)
		w.str(typeName(vs[0]))
		w.raw(`,"os":`)
		w.str(fmt.Sprint(items))
		fmt.Fprintf(&w.b, `,"strict":%t,`, strict)
		writeOpts(w, items)
		w.raw(`,"vs":[`)
		for i, n := range nodes {
			if i > 0 {
				w.raw(",")
			}
			w.b.Write(n)
		}
		w.raw(`],"gs":[`)
		for i, r := range rs {
			if i > 0 {
				w.raw(",")
			}
			r.write(w)
		}
		w.raw("]")
	})
}

type pQuoted struct {
	X string `json:",string"`
}
type pStrings struct {
	S []string
	Q []pQuoted
	M map[string]int
	T []GivenT
	K map[GivenT]int
	R []interface{}
	B [][]byte
}

func (h *H) planStrings(l planLine) {
	v := pStrings{M: map[string]int{}, K: map[GivenT]int{}}
	for i, s := range l.strs() {
		v.S = append(v.S, s)
		v.Q = append(v.Q, pQuoted{s})
		v.M[s] = i
		v.T = append(v.T, GivenT{s})
		v.K[GivenT{s}] = i
		v.R = append(v.R, s)
		v.B = append(v.B, []byte(s))
	}
	for k := 0; k < 8; k++ {
		items := []optItem{one("RawByteSlice")}
		for i, n := range []string{"NoStringEscaping", "NoHTMLEscaping", "NoUTF8Coercion"} {
			if k&(1<<i) != 0 {
				items = append(items, one(n))
			}
		}
		h.marshalCase("enc", v, items)
	}
}

func (h *H) planTexts(l planLine, numbers bool) {
	var raws, js, nums, qs []interface{}
	for _, t := range l.strs() {
		raws = append(raws, json.RawMessage(t))
		js = append(js, GivenJ{[]byte(t)})
		nums = append(nums, json.Number(t))
		qs = append(qs, struct {
			N json.Number `json:",string"`
		}{json.Number(t)})
	}
	if numbers {
		h.many(nums, nil, true)
		h.many(qs, nil, true)
		if h.id%4 == 0 {
			h.many(raws, nil, true)
			h.many(nums, []optItem{one("NoNumberValidation")}, true)
		}
		return
	}
	h.many(raws, nil, true)
	h.many(js, nil, true)
	h.many(raws, []optItem{one("NoHTMLEscaping")}, true)
	h.many(js, []optItem{one("NoHTMLEscaping")}, true)
	if h.id%8 == 0 {
		h.many(js, []optItem{one("NoCompact")}, true)
	}
}

type pInts struct {
	U   []uint64
	I   []int64
	N   []int64
	U32 []uint32
	I32 []int32
	U16 []uint16
	I16 []int16
	I8  []int8
	Int []int
	Uin []uint
	Ptr []uintptr
	MU  map[uint64]int8
	MI  map[int64]uint8
	Q   []pQInt
}
type pQInt struct {
	I int64   `json:",string"`
	U uint64  `json:",string"`
	P *uint32 `json:",string"`
}

func (h *H) planInts(l planLine) {
	var s [][]uint64
	l.into(&s)
	v := pInts{MU: map[uint64]int8{}, MI: map[int64]uint8{}}
	for _, x := range s {
		u := x[0]<<48 | x[1]<<32 | x[2]<<16 | x[3]
		w := uint32(u)
		v.U = append(v.U, u)
		v.I = append(v.I, int64(u))
		v.N = append(v.N, -int64(u))
		v.U32 = append(v.U32, w)
		v.I32 = append(v.I32, int32(u))
		v.U16 = append(v.U16, uint16(u))
		v.I16 = append(v.I16, int16(u))
		v.I8 = append(v.I8, int8(u))
		v.Int = append(v.Int, int(u))
		v.Uin = append(v.Uin, uint(u))
		v.Ptr = append(v.Ptr, uintptr(u))
		v.MU[u] = int8(u)
		v.MI[int64(u)] = uint8(u)
		v.Q = append(v.Q, pQInt{int64(u), u, &w})
	}
	h.marshalCase("enc", v, nil)
}

type pFloats struct {
	F []float64
	G []float32
	Q []pQFloat
	I []interface{}
}
type pQFloat struct {
	F float64 `json:",string"`
	G float32 `json:",string"`
}

func (h *H) planFloats(l planLine) {
	var v pFloats
	for _, s := range l.strs() {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			v.F = append(v.F, f)
			v.I = append(v.I, f)
			v.Q = append(v.Q, pQFloat{F: f})
		}
		if f, err := strconv.ParseFloat(s, 32); err == nil {
			v.G = append(v.G, float32(f))
			v.Q = append(v.Q, pQFloat{G: float32(f)})
		}
	}
	h.marshalCase("enc", v, nil)
}

type pSink struct {
	T  time.Time
	D  time.Duration
	M  map[string]int
	N  map[string]int
	L  []int
	B  []byte
	A  [3]byte
	S  string
	K  string `json:"k<&>"`
	J  GivenJ
	R  json.RawMessage
	Z  json.Number
	C  MStrVC
	MT map[time.Time]time.Duration
	E  struct{ A, B int }
	Nb []byte
	Ns []string `json:",omitempty"`
}

func (h *H) planOptions(l planLine) {
	var lists [][]struct {
		N string
		I int
		L []ints
	}
	l.into(&lists)
	for k, list := range lists {
		var items []optItem
		for _, x := range list {
			it := optItem{n: x.N, i: x.I}
			switch x.N {
			case "TimeLayout":
				it.text = []string{time.RFC3339Nano, time.RFC3339, "06 <\"Jan\"> .000", ""}[x.I-1]
			case "AllowList", "DenyList":
				for _, s := range x.L {
					it.l = append(it.l, s.str())
				}
			}
			items = append(items, it)
		}
		t := time.Unix(1600000000, 120003000).In(time.FixedZone("Z", -5400))
		v := &pSink{T: t, D: 90*time.Minute + 1500*time.Microsecond, M: map[string]int{"b": 1, "a": 2, "c<": 3}, B: []byte("a<\xff\""), A: [3]byte{'x', '"', 0xe9},
			S: "é<\xff\"\u2028", K: ">", J: GivenJ{[]byte(" [1 , \"<\u2029\" ] ")}, R: json.RawMessage(`{ "a" : "&" }`), Z: "1e5", C: "c", MT: map[time.Time]time.Duration{t: time.Second}, Ns: []string{}}
		v.E.A, v.E.B = 1, 2
		if (h.id+k)%3 == 0 {
			v.Z = "01"
		}
		oldOptions = k%2 == 0
		h.appendCase("opts", v, items)
		oldOptions = false
	}
}

func (h *H) planTimes(l planLine) {
	var s [][4]int64
	l.into(&s)
	var ts []time.Time
	m := map[time.Time]bool{}
	for _, x := range s {
		t := time.Unix((x[0]-719528)*86400+x[1]-x[3], x[2]).In(time.FixedZone("", int(x[3])))
		ts = append(ts, t)
		m[t] = true
	}
	for _, items := range [][]optItem{nil, {{n: "TimeLayout", text: time.RFC3339}}, {one("UnixTime")}} {
		h.marshalCase("enc", ts, items)
	}
	h.marshalCase("enc", m, nil)
}

func (h *H) planDurations(l planLine) {
	var s [][3]int64
	l.into(&s)
	var ds []time.Duration
	m := map[time.Duration]bool{}
	for _, x := range s {
		d := time.Duration(x[0]*1e9 + x[1])
		if x[2] == 1 {
			d = -d
		}
		ds = append(ds, d)
		m[d] = true
	}
	for f := 0; f <= 5; f++ {
		items := []optItem{{n: "DurationFormat", i: f}}
		h.marshalCase("enc", ds, items)
		if f == h.id%6 && f != 1 && f != 2 {
			h.marshalCase("enc", m, items)
		}
	}
}

// PNullV and PNullP marshal themselves as null, PNullN as something else.
type PNullV struct{ A int }
type PNullP struct{ A int }
type PNullN struct{ A int }

func (PNullV) MarshalJSON() ([]byte, error)  { return []byte(" null"), nil }
func (*PNullP) MarshalJSON() ([]byte, error) { return []byte("null"), nil }
func (PNullN) MarshalJSON() ([]byte, error)  { return []byte(`"null"`), nil }

type PFarA struct{ Far1 int }
type PFarB struct{ Far2 string }
type PFarC struct{ Far3, Far4 bool }

// planRoles makes a struct whose fields have the given roles.
func (h *H) planRoles(l planLine) {
	var roles []string
	l.into(&roles)
	r := h.r
	type alt struct {
		t   reflect.Type
		tag string
		v   interface{} // nil: zero
	}
	pick1 := func(as ...alt) alt { return as[r.Intn(len(as))] }
	five := 5
	var fs []reflect.StructField
	var vs []interface{}
	var deny []string
	far := 0
	for i, role := range roles {
		name := fieldNames[i]
		f := reflect.StructField{Name: name}
		var a alt
		typ := func(x interface{}) reflect.Type { return reflect.TypeOf(x) }
		switch role {
		case "shown":
			a = pick1(alt{typ(0), "", 3}, alt{typ(""), `json:",omitempty"`, "x"}, alt{typ(&five), `json:",omitnil"`, &five}, alt{typ([]int{}), `json:",omitnil"`, []int{}},
				alt{typ(map[string]int{}), `json:",omitnil"`, map[string]int{}}, alt{typ(&five), `json:",omitempty"`, &five}, alt{typ(PNullN{}), `json:",omitnil"`, nil},
				alt{typ(struct{}{}), `json:",omitempty"`, nil}, alt{typ(0), `json:",omitnil"`, nil}, alt{typ([1]int{}), `json:",omitempty"`, nil}, alt{typ(false), `json:"b"`, nil},
				alt{typ(struct{ A []int }{}), `json:",omitempty,omitnil"`, nil}, alt{typ(time.Time{}), `json:",omitempty"`, nil}, alt{typ(0), `json:",string"`, nil},
				alt{typ(&five), `json:",string"`, nil}, alt{typ(PNullV{}), `json:",omitempty"`, nil})
		case "empty":
			a = pick1(alt{typ(0), `json:",omitempty"`, nil}, alt{typ(""), `json:",omitempty"`, nil}, alt{typ([]int{}), `json:",omitempty"`, []int{}}, alt{typ(map[int]int{}), `json:",omitempty"`, map[int]int{}},
				alt{typ(1.5), `json:"x,omitempty,string"`, nil}, alt{typ([0]string{}), `json:",omitempty"`, nil}, alt{typ(false), `json:",omitempty,omitnil"`, nil}, alt{typ(&five), `json:",omitempty"`, nil},
				alt{typ(uint8(0)), `json:",omitempty"`, nil}, alt{typ(time.Duration(0)), `json:",omitempty"`, nil}, alt{typ(json.Number("")), `json:",omitempty"`, nil})
		case "nil":
			a = pick1(alt{typ(&five), `json:",omitnil"`, nil}, alt{typ([]int{}), `json:",omitnil"`, nil}, alt{typ(map[string]int{}), `json:",omitnil"`, nil},
				alt{reflect.TypeOf(new(interface{})).Elem(), `json:",omitnil"`, nil}, alt{typ(json.RawMessage{}), `json:",omitnil"`, nil}, alt{typ(&PNullN{}), `json:",omitnil,string"`, nil})
		case "null":
			a = pick1(alt{typ(PNullV{}), `json:",omitnil"`, nil}, alt{typ(&PNullV{}), `json:",omitnil"`, &PNullV{}}, alt{typ(&PNullP{}), `json:"n,omitnil"`, &PNullP{}}, alt{typ(PNullP{}), `json:",omitnil"`, nil})
		case "denied":
			a = pick1(alt{typ(0), "", 7}, alt{typ(""), `json:",omitempty"`, "d"}, alt{typ(make(chan int)), "", nil}, alt{typ(&five), `json:",omitnil"`, &five})
		case "far":
			far++
			f.Name, f.Anonymous = [...]string{"PFarA", "PFarB", "PFarC", "PFarA", "PFarB"}[far-1], true
			a.t = [...]reflect.Type{typ(&PFarA{}), typ(&PFarB{}), typ(&PFarC{})}[(far-1)%3]
			if far > 3 { // behind a field of another name
				f.Name, f.Anonymous = name, false
				a = alt{typ(&five), `json:",omitnil"`, nil}
			}
		case "fails":
			a = pick1(alt{typ(make(chan int)), "", nil}, alt{typ(json.Number("")), "", json.Number("bad")}, alt{typ(GivenJ{}), "", GivenJ{[]byte("{")}})
		}
		f.Type, f.Tag = a.t, reflect.StructTag(a.tag)
		if role == "denied" {
			n := name
			deny = append(deny, n)
		}
		fs = append(fs, f)
		vs = append(vs, a.v)
	}
	x := reflect.New(reflect.StructOf(fs))
	for i, v := range vs {
		if v != nil {
			x.Elem().Field(i).Set(reflect.ValueOf(v))
		}
	}
	var items []optItem
	if len(deny) > 0 {
		items = append(items, optItem{n: "DenyList", l: deny})
	}
	if h.id%2 == 0 {
		h.marshalCase("enc", x.Interface(), items)
	} else {
		h.marshalCase("enc", x.Elem().Interface(), items)
	}
}

// planTags makes structs with fields under the given tags.
func (h *H) planTags(l planLine) {
	r := h.r
	five, zero := 5, 0
	alts := []reflect.Value{
		reflect.ValueOf(0), reflect.ValueOf(""), reflect.ValueOf(false), reflect.ValueOf(0.0), reflect.ValueOf(uint8(0)), reflect.ValueOf((*int)(nil)),
		reflect.ValueOf([]string(nil)), reflect.ValueOf(map[string]int(nil)), reflect.ValueOf(PFarA{}), reflect.ValueOf(time.Duration(0)), reflect.ValueOf(json.Number("")),
		reflect.ValueOf(5), reflect.ValueOf("<x>"), reflect.ValueOf(true), reflect.ValueOf(-2.5), reflect.ValueOf(uint8(7)), reflect.ValueOf(&five),
		reflect.ValueOf([]string{"s"}), reflect.ValueOf(map[string]int{"k": 1}), reflect.ValueOf(PFarA{3}), reflect.ValueOf(time.Second), reflect.ValueOf(json.Number("12")),
		reflect.ValueOf(PNullV{}), reflect.ValueOf(&PNullP{}), reflect.ValueOf(&zero), reflect.ValueOf([]string{}),
	}
	var all, std []interface{}
	for _, tag := range l.strs() {
		for k := 0; k < 2; k++ {
			fs := []reflect.StructField{{Name: "Y", Type: reflect.TypeOf(0)}}
			vs := []reflect.Value{reflect.ValueOf(1)}
			a := alts[r.Intn(len(alts))]
			f := reflect.StructField{Name: "X", Type: a.Type(), Tag: reflect.StructTag("json:" + strconv.Quote(tag))}
			if a.Type() == reflect.TypeOf(PFarA{}) {
				f.Name, f.Anonymous = "PFarA", true
			}
			if k == 0 {
				fs, vs = append(fs, f), append(vs, a)
			} else {
				fs, vs = append([]reflect.StructField{f}, fs...), append([]reflect.Value{a}, vs...)
			}
			x := reflect.New(reflect.StructOf(fs)).Elem()
			for i, v := range vs {
				x.Field(i).Set(v)
			}
			all = append(all, x.Interface())
			if !strings.Contains(tag, "omitnil") {
				std = append(std, x.Interface())
			}
		}
	}
	var items []optItem
	if h.id%3 == 1 {
		items = append(items, one("NoHTMLEscaping"))
	}
	if h.id%5 == 1 {
		items = append(items, optItem{n: []string{"DenyList", "AllowList"}[h.id%2], l: []string{"a", "X", "Om", "B0_", "-", "<", "PFarA", "é"}[r.Intn(4):]})
	}
	h.many(all, items, false)
	if len(std) == 0 {
		return
	}
	h.enc("std", std, nil, marshal(std, nil), func(w *jw) {
		r := guard(func() ([]byte, error) { return json.Marshal(std) })
		w.raw(`,"std":`)
		r.write(w)
	})
}

type pMapKey string
type pMapText struct{ S string }
type pMapMixed string

func (k pMapText) MarshalText() ([]byte, error) { return []byte(k.S), nil }
func (k *pMapMixed) MarshalText() ([]byte, error) {
	if k == nil {
		return []byte("called on nil"), nil
	}
	return []byte(*k), nil
}

// planMaps encodes maps with the given key texts: as maps with keys of several
// types, as sync.Maps, and with several keys of the same text.
func (h *H) planMaps(l planLine) {
	ks := l.strs()
	type all struct {
		S map[string]int
		N map[pMapKey][]string
		T map[pMapText]interface{}
		P map[*pMapMixed]int
		E map[interface {
			MarshalText() ([]byte, error)
		}]string
	}
	v := all{map[string]int{}, map[pMapKey][]string{}, map[pMapText]interface{}{}, map[*pMapMixed]int{}, map[interface {
		MarshalText() ([]byte, error)
	}]string{}}
	var m sync.Map
	nested := map[string]interface{}{}
	for i, k := range ks {
		x := pMapMixed(k)
		v.S[k], v.N[pMapKey(k)], v.T[pMapText{k}], v.P[&x], v.E[pMapText{k}] = i, []string{k}, k, i, k
		nested[k] = map[string]int{k: i}
		var e interface{} = i
		if i == 1 {
			e = map[string]int{"z": 1, "a": 2}
		}
		switch (i + h.id) % 4 {
		case 0:
			m.Store(k, e)
		case 1:
			m.Store(pMapKey(k), e)
		case 2:
			m.Store(pMapText{k}, e)
		case 3:
			m.Store(&x, e)
		}
		if i == 0 { // another key with the same text
			y := pMapMixed(k)
			v.P[&y] = 100
			if h.id%3 == 0 {
				m.Store(&y, "other")
			}
		}
	}
	if h.id%8 == 5 {
		v.P[nil] = 7
		m.Store((*pMapMixed)(nil), 7)
	}
	var items []optItem
	for i, n := range []string{"UnsortedMap", "NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion", "DenyList"} {
		switch {
		case i > 0 && h.r.Intn(4) > 0, i == 0 && h.id%3 != 0:
		case n == "DenyList":
			items = append(items, optItem{n: n, l: []string{"a", "<", ""}})
		default:
			items = append(items, one(n))
		}
	}
	h.many([]interface{}{v, nested, &m}, items, true)
}

// planRoom appends n bytes in several forms, and other values of about that
// size, to slices that have the given room left.
func (h *H) planRoom(l planLine) {
	var x []int
	l.into(&x)
	n, room := x[0], x[1]
	b := make([]byte, n)
	h.r.Read(b)
	text := strings.Repeat("ab<\n\xff\u00e9\"", n)[:n]
	pre := []byte("[1,"[:h.id%4])
	h.appendTo("appendenc", b, nil, pre, room)
	switch h.id % 8 {
	case 0:
		h.appendTo("appendenc", b, []optItem{one("RawByteSlice")}, pre, room)
	case 1:
		h.appendTo("appendenc", text, nil, pre, room)
	case 2:
		h.appendTo("appendenc", map[string]interface{}{text: n, "k": nil}, nil, pre, room)
	case 3:
		h.appendTo("appendenc", json.RawMessage("[ "+strings.Repeat("1 , ", n)+"2 ]"), nil, pre, room)
	case 4:
		h.appendTo("appendenc", struct {
			A []int `json:"a,omitempty"`
			B GivenT
			C *PNullP `json:",omitnil"`
		}{make([]int, n/3), GivenT{text}, &PNullP{}}, nil, pre, room)
	case 5:
		h.appendTo("appendenc", []interface{}{math.Ldexp(1/3.0, n*n), int64(-1) << (4 * uint(n) % 63), true, time.Unix(int64(n)<<(2*uint(n)%33), int64(n))}, nil, pre, room)
	case 6:
		h.appendTo("appendenc", []interface{}{text, make(chan int)}, nil, pre, room)
	case 7:
		h.appendTo("appendenc", []interface{}{time.Duration(1) << (4 * uint(n) % 63), [4]byte{}, text}, []optItem{{n: "DurationFormat", i: 0}, one("ByteArrayAsString")}, pre, room)
	}
}

type PNode struct {
	V       int
	A, B, C *PNode
}
type PNodeS struct {
	K []*PNodeS `json:"k,omitempty"`
	V int
}
type PNodeI struct {
	I []interface{}
	M map[string]*PNodeI
}

// planGraph builds values that are shared or contain themselves as the graph
// says; node 1 is the root.
func (h *H) planGraph(l planLine) {
	var kids [][]int
	l.into(&kids)
	n := len(kids)
	leads := []int{0}
	if h.id%50 == 0 {
		leads = append(leads, []int{997, 998, 999, 1000, 1001, 1002, 1003, 1600}[h.r.Intn(8)])
	}
	for _, lead := range leads {
		for kind := 0; kind < 6; kind++ {
			if lead > 0 && kind != (h.id/50)%6 {
				continue
			}
			var root interface{}
			switch kind {
			case 0:
				ns := make([]PNode, n)
				for i := range ns {
					ns[i].V = i
					for j, k := range kids[i] {
						*[]**PNode{&ns[i].A, &ns[i].B, &ns[i].C}[j] = &ns[k-1]
					}
				}
				root = &ns[0]
			case 1:
				ns := make([]PNodeS, n)
				for i := range ns {
					ns[i].V = i
					for _, k := range kids[i] {
						ns[i].K = append(ns[i].K, &ns[k-1])
					}
				}
				root = ns[0]
			case 2:
				ns := make([][]interface{}, n)
				for i := range ns {
					ns[i] = make([]interface{}, 1+len(kids[i]))
					ns[i][0] = i
				}
				for i := range ns {
					for j, k := range kids[i] {
						ns[i][1+j] = ns[k-1]
					}
				}
				root = ns[0]
			case 3:
				ns := make([]map[string]interface{}, n)
				for i := range ns {
					ns[i] = map[string]interface{}{"v": i}
				}
				for i := range ns {
					for j, k := range kids[i] {
						ns[i][fmt.Sprint(j)] = ns[k-1]
					}
				}
				root = ns[0]
			case 4:
				ns := make([]PNodeI, n)
				for i := range ns {
					for j, k := range kids[i] {
						if (i+j)%2 == 0 {
							ns[i].I = append(ns[i].I, &ns[k-1])
						} else {
							if ns[i].M == nil {
								ns[i].M = map[string]*PNodeI{}
							}
							ns[i].M[fmt.Sprint(j)] = &ns[k-1]
						}
					}
				}
				root = &ns[0]
			case 5: // the nodes are of different kinds
				s := make([]interface{}, 1+len(kids[0]))
				ns := []interface{}{s, map[string]interface{}{}, &PNodeI{}}
				for i := range kids {
					for j, k := range kids[i] {
						switch x := ns[i].(type) {
						case []interface{}:
							x[1+j] = ns[k-1]
						case map[string]interface{}:
							x[fmt.Sprint(j)] = &ns[k-1]
						case *PNodeI:
							x.I = append(x.I, ns[k-1])
						}
					}
				}
				root = ns[0]
			}
			if lead == 0 && (kind+h.id)%3 == 0 {
				v := root
				if h.id%2 == 0 { // twice
					v = []interface{}{v, v}
				}
				h.below(v, kind, pick(h.r, []int{996, 997, 998, 999, 1000, 1001, 1100}))
			}
			for i := 0; i < lead; i++ {
				root = []interface{}{root}
			}
			h.marshalCase("strict", root, nil)
		}
	}
}

// below encodes v by itself and below lead slices, maps or pointers: where
// references are kept track of, to find those that contain themselves.
func (h *H) below(v interface{}, kind, lead int) {
	w, pre, suf, name := v, strings.Builder{}, "", fmt.Sprintf("below %d", lead)
	for i := 0; i < lead; i++ {
		switch (kind + h.id + i/300) % 3 {
		case 0:
			w, suf = []interface{}{w}, suf+"]"
		case 1:
			w, suf = map[string]interface{}{"k": w}, suf+"}"
		case 2:
			x := w
			w = &x
		}
	}
	for i := len(suf) - 1; i >= 0; i-- {
		if suf[i] == ']' {
			pre.WriteString("[")
		} else {
			pre.WriteString(`{"k":`)
		}
	}
	h.posCase(v, nil, []wrapped{{pre.String(), suf, w, name}})
}

// planProg encodes values of a struct type of MC_Programs.
func (h *H) planProg(l planLine) {
	var i int
	l.into(&i)
	t := reflect.TypeOf(progTypes[i]).Elem()
	for k := 0; k < 2; k++ {
		g := h.newGen(&profile{nilp: []float64{0, 0.4}[k]})
		g.budget = 40
		v := g.value(t, 6)
		x := v.Interface()
		items := []optItem(nil)
		if k == 1 && h.r.Intn(3) == 0 {
			items = []optItem{optOf(h.r, pick(h.r, []string{"AllowList", "DenyList"}), []string{"A", "B", "C", "G2"}[:1+h.r.Intn(4)])}
			h.marshalCase("enc", x, items)
			continue
		}
		h.enc("std", x, nil, marshal(x, nil), func(w *jw) {
			r := guard(func() ([]byte, error) { return json.Marshal(x) })
			w.raw(`,"std":`)
			r.write(w)
		})
	}
}

func init() {
	drivers["plan"] = func(h *H) {
		if planLines == nil {
			loadPlan(*flagPlan)
		}
		if h.id >= len(planLines) {
			return
		}
		l := planLines[h.id]
		switch l.Z {
		case "strings":
			h.planStrings(l)
		case "texts":
			h.planTexts(l, false)
		case "numbers":
			h.planTexts(l, true)
		case "ints":
			h.planInts(l)
		case "floats":
			h.planFloats(l)
		case "options":
			h.planOptions(l)
		case "times":
			h.planTimes(l)
		case "durations":
			h.planDurations(l)
		case "roles":
			h.planRoles(l)
		case "values":
			h.planValues(l)
		case "maps":
			h.planMaps(l)
		case "room":
			h.planRoom(l)
		case "tags":
			h.planTags(l)
		case "sched":
			planSched(h, l)
		case "fresh":
			h.planFresh(l)
		case "pairs":
			planPairs(h, l)
		case "graph":
			h.planGraph(l)
		case "prog":
			h.planProg(l)
		default:
			check(fmt.Errorf("unknown plan %s", l.Z))
		}
	}
}

var _ = strings.Repeat
var _ = jettison.Marshal
