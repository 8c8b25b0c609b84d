package main

// Histories and concurrent calls (C19, C20).  A case is a set of values and a
// list of calls over them.  Several processes make the calls of the same cases
// in different orders, or at the same time; what each call gave is recorded,
// and the records of one call are put together and judged.

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wI2L/jettison"
)

// ---- user types that do odd but legitimate things ----

// HRe encode what they hold from within their method.
type HRe struct {
	V interface{}
	K int
}
type HReA struct{ V interface{} }
type HReT struct{ V interface{} }
type HReC struct{ V interface{} }
type HReP struct {
	Next *HReP `json:",omitempty"`
	V    interface{}
}
type HKeyRe struct{ S string }

func (h HRe) MarshalJSON() ([]byte, error) { return jettison.Marshal(h.V) }
func (h HReA) AppendJSON(b []byte) ([]byte, error) {
	return jettison.Append(b, h.V)
}
func (h HReT) MarshalText() ([]byte, error) { return jettison.Marshal(h.V) }
func (h HReC) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return jettison.AppendOpts(b, h.V, jettison.WithContext(c))
}
func (h *HReP) MarshalJSON() ([]byte, error) {
	return jettison.Marshal(map[string]interface{}{"next": h.Next, "v": h.V})
}
func (h HKeyRe) MarshalText() ([]byte, error) {
	return jettison.Marshal(map[string]interface{}{h.S: []string{h.S, h.S}, "z": map[string]string{h.S: "1"}})
}

// HPanic's methods panic for odd K.
type HPanic struct{ K int }
type HPanicA struct{ K int }
type HPanicT struct{ K int }

func (h HPanic) MarshalJSON() ([]byte, error) {
	if h.K%2 != 0 {
		panic("HPanic")
	}
	return []byte(`"calm"`), nil
}
func (h *HPanicA) AppendJSON(b []byte) ([]byte, error) {
	b = append(b, "[1,2,"...)
	if h.K%2 != 0 {
		panic(fmt.Errorf("HPanicA"))
	}
	return append(b, "3]"...), nil
}
func (h HPanicT) MarshalText() ([]byte, error) {
	if h.K%2 != 0 {
		panic("HPanicT")
	}
	return []byte(fmt.Sprint("calm", h.K)), nil
}

// HShare's methods return memory of their own.
type HShare struct{ B *[]byte }
type HShareT struct{ B *[]byte }

func (h HShare) MarshalJSON() ([]byte, error)  { return *h.B, nil }
func (h HShareT) MarshalText() ([]byte, error) { return *h.B, nil }

// HBig writes a long text.
type HBig struct{ N int }

func (h HBig) AppendJSON(b []byte) ([]byte, error) {
	b = append(b, '"')
	for i := 0; i < h.N&0x1ffff; i++ {
		b = append(b, byte('a'+i%26))
	}
	return append(b, '"'), nil
}

func shared(r *rand.Rand, s string) *[]byte {
	b := append(make([]byte, 0, len(s)+r.Intn(20)), s...)
	return &b
}

// types that share their name
func sameNamed() []interface{} {
	var l []interface{}
	add := func(vs ...interface{}) { l = append(l, vs...) }
	{
		type T struct{ A int }
		add(T{1}, &T{2}, []T{{3}})
	}
	{
		type T struct{ B string }
		add(T{"x"}, &T{"y"}, map[string]T{"k": {"z"}})
	}
	{
		type T struct {
			B string `json:"A,omitempty"`
			C *int
		}
		add(T{}, &T{"y", new(int)}, [2]T{{"x", nil}, {"z", nil}})
	}
	{
		type T []int
		add(T{1}, &T{2, 3}, T(nil))
	}
	{
		type T map[string]bool
		add(T{"a": true}, []T{{"b": false}}, T{})
	}
	{
		type T int
		add(T(1), new(T), map[T]int{5: 1}, struct {
			X T `json:",string"`
		}{7})
	}
	{
		type T string
		add(T("s<"), map[T]int{"q": 1}, struct {
			X T `json:",string"`
		}{"7"})
	}
	{
		type T struct{ P *int }
		i := 4
		add(T{&i}, &T{}, struct{ X T }{T{&i}})
	}
	{
		type T struct{ N *T }
		add(T{&T{}}, &T{&T{&T{}}}, []T{{}})
	}
	{
		type T struct {
			N []T
			A int
		}
		add(T{[]T{{}}, 1}, &T{}, map[string]T{"t": {A: 2}})
	}
	{
		type T struct {
			time.Time
			X int
		}
		add(T{time.Unix(0, 0).UTC(), 1}, &T{})
	}
	{
		type T [2]byte
		add(T{1, 2}, &T{3}, struct{ X *T }{&T{4}})
	}
	{
		type T func()
		add(T(nil), struct{ X T }{})
	}
	{
		type T interface{}
		var x T = 5
		add(&x, []T{1, "a", nil})
	}
	return l
}

// ---- values that use shared scratch memory in different ways ----

type pairQuoted struct {
	F string      `json:",string"`
	N json.Number `json:",string"`
}
type pairRec struct {
	M map[string]*pairRec `json:",omitempty"`
	V interface{}
}

// pairValue is a value of shape n that goroutine w encodes.
func pairValue(n, w int) interface{} {
	s := []string{"ab<", "x\ny"}[w]
	k := func(i int) string { return fmt.Sprint([]string{"p", "q"}[w], 9-i) }
	m := map[string]string{k(1): s, k(2): "", k(3): s + s}
	switch n {
	case 1:
		return pairQuoted{s, "12"}
	case 2:
		return m
	case 3:
		return map[string]map[string]string{k(1): m, k(2): {s: s}}
	case 4:
		return map[string]interface{}{k(1): pairQuoted{s, "3"}, k(2): map[int]string{5: s, 40: "z"}}
	case 5:
		x := &sync.Map{}
		x.Store(k(1), s)
		x.Store(k(2), m)
		x.Store(k(3), 1.5)
		return x
	case 6:
		x := &sync.Map{}
		x.Store(k(2), []string{s})
		x.Store(k(1), "")
		return map[string]interface{}{k(1): x, k(2): s}
	case 7:
		return []interface{}{m, pairQuoted{s + s, "4"}, m}
	case 8:
		return map[string]HReA{k(1): {m}, k(2): {pairQuoted{s, "5"}}}
	case 9:
		return map[HKeyRe]int{{s}: 1, {k(1)}: 2}
	case 10: // fails
		return map[string]interface{}{k(1): map[string]interface{}{k(1): make(chan int)}}
	case 11:
		return []json.RawMessage{json.RawMessage(` ["` + k(1) + `<" , 1]`), nil}
	case 12:
		return map[string]string{k(1): strings.Repeat(k(2), 2100), k(2): s}
	case 13:
		return []interface{}{time.Unix(1e9+int64(w), 5).UTC(), time.Duration(1500 + w), 0.25 + float32(w), 1e21 * (1 + float64(w)), uint8(7)}
	case 14:
		return []interface{}{[]byte(s + s), [2]byte{1, byte(w)}, &pairRec{map[string]*pairRec{k(1): {nil, s}, k(2): nil}, m}}
	case 15:
		return map[GivenT]HRe{{s}: {V: m}, {k(1)}: {V: pairQuoted{s, "6"}}}
	case 16: // fails after some of it
		return []interface{}{m, map[string]interface{}{k(1): HPanicT{0}, k(2): json.Number("x" + s)}}
	}
	return nil
}

// ---- cases ----

type hCall struct {
	v     int
	api   int // 0 Marshal, 1 MarshalOpts, 2 Append, 3 AppendOpts
	items []optItem
	pool  []int // the items are these of the case's pool
	pre   string
	spare int
}

type hCase struct {
	id    int
	vals  []interface{}
	desc  []string // content, at first
	exact []bool
	calls []hCall
	rec   []hRec
	os    map[int][]jettison.Option // lists used again and again
	pool  []optItem                 // options that several calls use
	opool []jettison.Option
}

type hRec struct {
	r    []callRes
	kept bool
	pure bool
}

var histOpts = without(allOpts, "UnsortedMap")

func histProfile() *profile {
	p := fullProfile()
	p.keys = types("", "", "")
	nm := func(t reflect.Type) bool {
		return !mentions(t, func(u reflect.Type, _ reflect.StructTag) bool {
			return u.Kind() == reflect.Map && u.Key().Kind() != reflect.String && !isInt(u.Key().Kind())
		})
	}
	p.leaf, p.named, p.dyn, p.embed = filter(p.leaf, nm), filter(p.named, nm), filter(p.dyn, nm), filter(p.embed, nm)
	p.leaf = join(p.leaf, types(HPanic{}, &HPanicA{}, HPanicT{}, HBig{}))
	return p
}

func isInt(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Uintptr }

// around gives values that hold v in different places.
func around(r *rand.Rand, v reflect.Value) []interface{} {
	t := v.Type()
	ptr := func() reflect.Value {
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	}
	field := func() reflect.Value {
		x := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.TypeOf(0)}}))
		x.Elem().Field(0).Set(v)
		return x
	}
	var l []interface{}
	add := func(f func() reflect.Value) { l = append(l, f().Interface()) }
	fs := []func() reflect.Value{
		func() reflect.Value { return v },
		ptr,
		func() reflect.Value {
			s := reflect.MakeSlice(reflect.SliceOf(t), 1, 2)
			s.Index(0).Set(v)
			return s
		},
		func() reflect.Value {
			a := reflect.New(reflect.ArrayOf(1, t))
			a.Elem().Index(0).Set(v)
			return a.Elem()
		},
		func() reflect.Value {
			a := reflect.New(reflect.ArrayOf(1, t))
			a.Elem().Index(0).Set(v)
			return a
		},
		func() reflect.Value {
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			return m
		},
		func() reflect.Value { return field().Elem() },
		field,
		func() reflect.Value { return reflect.ValueOf([]interface{}{v.Interface()}) },
		func() reflect.Value { return reflect.ValueOf([]interface{}{ptr().Interface()}) },
		func() reflect.Value {
			pp := reflect.New(reflect.PtrTo(t))
			pp.Elem().Set(ptr())
			return pp
		},
		func() reflect.Value {
			e := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Y", Type: t}}))
			e.Elem().Field(0).Set(v)
			x := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: e.Type(), Anonymous: true}}))
			x.Elem().Field(0).Set(e)
			return x.Elem()
		},
	}
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for i := 0; i < 3+r.Intn(4); i++ {
		add(fs[i])
	}
	return l
}

func (h *H) odd(g *gen, p *profile) interface{} {
	r := h.r
	any := func() interface{} { return g.value(g.typ(1), 2).Interface() }
	txt := func() string { return pick(r, goodJSON) }
	switch r.Intn(19) {
	case 17: // large memory of methods, and raw texts
		n := pick(r, []int{900, 2000, 4096, 4096, 8192, 20000}) + r.Intn(300) - 150
		b := shared(r, pick(r, []string{`"` + strings.Repeat("s", n) + `"`, strings.Repeat(" ", n) + "1", "[1" + strings.Repeat(",1", n/2) + "]"}))
		return pick(r, []interface{}{HShare{b}, HShare{b}, []HShare{{b}, {b}}, HShareT{b}, json.RawMessage(*b), map[string]HShare{"k": {b}, "a": {b}}})
	case 13, 14: // raw texts with room behind them
		b := append(make([]byte, 0, 200), h.jsonText()...)
		t := append(make([]byte, 0, 200), h.jsonText()+pick(r, []string{"", " ", "  ", "\n\n", "   "})...)
		return map[string]interface{}{"r": json.RawMessage(b), "s": []json.RawMessage{t, b[:len(b)/2], b}, "t": struct {
			R json.RawMessage
			P *json.RawMessage
		}{t, (*json.RawMessage)(&b)}}
	case 15:
		return json.RawMessage(append(make([]byte, 0, 200), h.jsonText()+pick(r, []string{"", " ", "  ", "\n\n", "   "})...))
	case 0:
		return HRe{any(), 1}
	case 1:
		return []interface{}{1, HReA{any()}, HReA{map[string]interface{}{"q": any(), "a": HReA{any()}}}}
	case 2:
		return map[string]interface{}{"x": HReT{any()}, "a": HRe{V: HRe{V: any()}}, "m": map[string]HReA{"b": {any()}, "a": {any()}}}
	case 3:
		return map[HKeyRe]interface{}{{"a"}: any(), {"b<"}: HReC{any()}, {"c"}: 1}
	case 4:
		return &HReP{&HReP{&HReP{nil, any()}, any()}, any()}
	case 5:
		return HReC{[]interface{}{any(), HReC{any()}}}
	case 6:
		return []HPanic{{0}, {r.Intn(2)}, {2}}
	case 7:
		return map[string]interface{}{"a": &HPanicA{r.Intn(2)}, "b": []*HPanicA{{0}, {r.Intn(2)}}}
	case 8:
		return map[HPanicT]string{{r.Intn(2)}: "a", {2}: "b"}
	case 9:
		return HShare{shared(r, txt())}
	case 10:
		b := shared(r, txt())
		return []interface{}{HShare{b}, HShare{b}, HShareT{b}, json.RawMessage(*b)}
	case 11:
		if r.Intn(2) == 0 { // sizes around those at which buffers grow
			n := pick(r, []int{4096, 8192, 16384, 32768, 65536}) + r.Intn(9) - 4
			return pick(r, []interface{}{HBig{n}, strings.Repeat("s", n), []HBig{{n}, {1}}, map[string]HBig{"b": {n}, "a": {n}}})
		}
		return map[string]interface{}{"big": HBig{4000 + r.Intn(200)}, "m": map[string]HBig{"b": {1}, "a": {r.Intn(5000)}}, "z": any()}
	case 12:
		m := &sync.Map{}
		m.Store("b", any())
		m.Store("a", HRe{V: any()})
		m.Store("c", map[string]interface{}{"y": any(), "x": HReA{any()}})
		return m
	}
	return []interface{}{HRe{V: &HPanicA{r.Intn(2)}}, any()}
}

// newCase makes the values and the calls of one case; what it makes depends
// on the seed and the case alone.
func (h *H) newCase(p *profile, fresh []reflect.Type) *hCase {
	r := h.r
	c := &hCase{id: h.id, os: map[int][]jettison.Option{}}
	methRate = 4
	g := h.newGen(p)
	g.budget = 80
	switch k := r.Intn(8); {
	case len(fresh) > 0 || k < 3: // one type in different places
		var t reflect.Type
		if len(fresh) > 0 {
			t = fresh[h.id%len(fresh)]
		} else {
			t = pick(r, join(catMeth, catMethIface, catEmbed, catRec, catNamed, catOmit, p.leaf))
		}
		c.vals = around(r, g.value(t, 3))
		if len(fresh) > 0 {
			u := fresh[(h.id+1)%len(fresh)]
			c.vals = append(c.vals, around(r, g.value(u, 3))[:2]...)
			c.vals = append(c.vals, h.odd(g, p))
		}
	case k == 3:
		l := sameNamed()
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		c.vals = l[:2+r.Intn(8)]
	case k == 4 && r.Intn(2) == 0:
		for n := 3 + r.Intn(4); n > 0; n-- {
			c.vals = append(c.vals, pairValue(1+r.Intn(16), r.Intn(2)))
		}
	case k == 4 && r.Intn(2) == 0:
		c.vals = lookAlikes(g)
	case k == 4:
		c.vals = sameContent(r)
	case k < 6:
		for n := 2 + r.Intn(3); n > 0; n-- {
			c.vals = append(c.vals, h.odd(g, p))
		}
	default:
		for n := 2 + r.Intn(4); n > 0; n-- {
			c.vals = append(c.vals, g.topValue())
		}
	}
	if r.Intn(6) == 0 {
		c.vals = append(c.vals, nil)
	}
	for _, v := range c.vals {
		c.desc = append(c.desc, deepText(v))
		c.exact = append(c.exact, !manyEntries(reflect.ValueOf(v), 0))
	}
	for n := 0; n < 6; n++ {
		if r.Intn(2) == 0 {
			c.pool = append(c.pool, optOf(r, pick(r, []string{"AllowList", "DenyList", "DenyList"}), fieldNames[:4]))
		} else {
			c.pool = append(c.pool, optOf(r, pick(r, histOpts), nil))
		}
		switch it := c.pool[n]; it.n {
		case "AllowList", "DenyList": // the list is ours again once the option is made
			l := it.list()
			if it.n == "AllowList" {
				c.opool = append(c.opool, jettison.AllowList(l))
			} else {
				c.opool = append(c.opool, jettison.DenyList(l))
			}
			if len(fresh) == 0 {
				for j := range l {
					l[j] = "overwritten"
				}
			}
		default:
			c.opool = append(c.opool, it.option())
		}
	}
	for i := range c.vals {
		for n := 1 + r.Intn(2); n > 0; n-- {
			k := hCall{v: i, api: r.Intn(4), pre: pick(r, []string{"", "x", "[1,"}), spare: pick(r, []int{0, 3, 100, 9000})}
			if k.api%2 == 1 && r.Intn(2) == 0 {
				k.pool = r.Perm(len(c.pool))[:1+r.Intn(3)]
				for _, x := range k.pool {
					k.items = append(k.items, c.pool[x])
				}
			} else if k.api%2 == 1 {
				k.items = someOpts(r, histOpts, 2)
				if r.Intn(4) == 0 {
					k.items = append(k.items, optOf(r, pick(r, []string{"AllowList", "DenyList"}), fieldNames[:3]))
				}
			}
			c.calls = append(c.calls, k)
		}
	}
	c.rec = make([]hRec, len(c.calls))
	for i := range c.rec {
		c.rec[i] = hRec{kept: true, pure: true}
	}
	return c
}

// types that look like one another
var alike = [][]interface{}{
	{[0]int{}, [1]struct{}{}, [0]string{}, [2][0]int{}, struct{}{}, NAr0{}},
	{struct{ A int }{}, struct{ B int }{}, struct {
		A int `json:"b"`
	}{}, struct{ A uint }{}, struct{ A *int }{}, struct{ A uintptr }{}},
	{[]byte{}, []NU8{}, []int8{}, []bool{}, NBytes{}, json.RawMessage{}, NRaw{}, []MU8VJ{}, []MU8PT{}, []MU8PA{}},
	{[4]byte{}, [4]int8{}, [4]bool{}, NByAr{}, [4]NU8{}, [4]MU8VT{}, [2]uint16{}, float32(0)},
	{map[string]int{}, map[string]uint{}, map[NStr]int{}, map[string]float64{}, NMap{}, map[string]MIntVJ{}, map[string]MIntPJ{}},
	{new(int), new(uint), new(NInt), new(MIntVJ), new(MIntPJ), new(float64), new(time.Duration), new(*int)},
	{time.Duration(0), int64(0), NDur(0), NI64(0), MIntVJ(0), MIntPJ(0), uint64(0), 1.5},
	{"", json.Number(""), NStr(""), NNum(""), MStrVT(""), MStrPT(""), GivenT{}},
	{time.Time{}, NTime{}, struct{ time.Time }{}, &time.Time{}},
	{[1]*int{}, struct{ P *int }{}, new(int), NPtr(nil), NAr1p{}, NSt1p{}, MSt1pVJ{}, MSt1pPJ{}},
	{struct{ M map[string]int }{}, map[string]int{}, [1]map[string]int{}, NAr1m{}, NSt1m{}},
	{[]int{}, []uint{}, [][]int{}, []NInt{}, []MIntVJ{}, []MIntPJ{}, []*int{}, NSl{}},
	{[2]int{}, [2]uint{}, [2]MIntPJ{}, [2]MIntVT{}, [1][2]int{}, struct{ A, B int }{}},
	{OmJV(0), OmJP{}, OmM{}, OmS{}, 0, map[string]int{}, []int{}},
	{MStVJ{}, MStPJ{}, MStVT{}, MStPT{}, MStVA{}, MStPA{}, MStVC{}, MStPC{}},
	{MMapVJ{}, MMapPJ{}, MMapVT{}, MMapPA{}, map[string]int{}},
}

// lookAlikes gives values of such types in the same place.
func lookAlikes(g *gen) (l []interface{}) {
	r := g.r
	group := pick(r, alike)
	var vs []reflect.Value
	for _, i := range r.Perm(len(group)) {
		t := reflect.TypeOf(group[i])
		v := g.value(t, 2)
		if r.Intn(3) == 0 {
			v = reflect.Zero(t)
		}
		vs = append(vs, v)
	}
	return samePlace(r, vs)
}

// sameContent gives values of different types that have their content in
// common, in the same place.
func sameContent(r *rand.Rand) []interface{} {
	var l []interface{}
	switch r.Intn(5) {
	case 0:
		f := float32(pick(r, []float64{0.1, 1.5, -2.3, 1e21, 1e20, 1e-7, 16777216, 3.4e38, 1e-45, 0.3, 100, 5e-324, 123456789}))
		l = []interface{}{f, float64(f), NF32(f), NF64(f), []float32{f, f}, []float64{float64(f)}, float64(f) * 2, f * 2, -f, -float64(f)}
	case 1:
		n := pick(r, []int64{0, 1, 7, 42, 100, 127, 1000, 65535, 1 << 31, 1e15, -1, -128})
		l = []interface{}{n, int(n), int8(n), int16(n), int32(n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), uintptr(n), float32(n), float64(n), time.Duration(n),
			json.Number(fmt.Sprint(n)), fmt.Sprint(n), NInt(n), NI64(n), NU8(n), NDur(n), MIntVJ(n), MIntVT(n), time.Unix(n, 0).UTC(), time.Unix(0, n).UTC(), json.RawMessage(fmt.Sprint(n))}
	case 2:
		s := pick(r, []string{"12", "true", "null", `"q"`, "a<b", "", "[1]", "x\n", "\xff1", "0"})
		l = []interface{}{s, []byte(s), json.Number(s), json.RawMessage(s), NStr(s), NNum(s), NBytes(s), NRaw(s), GivenT{s}, MStrVT(s), MStrPT(s), []string{s}, map[string]string{s: s}, map[NStr]int{NStr(s): 1}, map[GivenT]int{{s}: 1}, [2]byte{'1', '2'}, &s, []rune(s)}
	case 3:
		t := time.Unix(pick(r, []int64{0, 1e9, -62135596800, 951782400, 1709164800}), pick(r, []int64{0, 5, 999999999, 120000000})).UTC()
		for _, o := range []int{0, 3600, -3600, 19800, 60, -86340} {
			l = append(l, t.In(time.FixedZone("", o)), NTime(t.In(time.FixedZone("Z", o))))
		}
		l = append(l, t, t.Add(1), t.Add(time.Second), t.AddDate(0, 0, 1), struct{ time.Time }{t}, t.Unix(), t.UnixNano(), time.Duration(t.Unix()))
	case 4:
		n := time.Duration(pick(r, []int64{0, 1, 999, 1000, 1e6, 1e9, 60e9, 3600e9, 90061001001001, -1, -1e9}))
		l = []interface{}{n, NDur(n), int64(n), float64(n), n.String(), n.Seconds(), uint64(n), time.Unix(0, int64(n)).UTC(), n + 1, -n, []time.Duration{n, -n}}
	}
	var vs []reflect.Value
	for _, i := range r.Perm(len(l)) {
		vs = append(vs, reflect.ValueOf(l[i]))
	}
	if n := 4 + r.Intn(6); len(vs) > n {
		vs = vs[:n]
	}
	return samePlace(r, vs)
}

// samePlace puts each of the values in a value of its own, in the same way.
func samePlace(r *rand.Rand, vs []reflect.Value) (l []interface{}) {
	place := r.Intn(9)
	tag := pick(r, []string{"", ",omitempty", ",omitempty", ",omitnil", ",string", ",omitempty,string", ",omitnil,omitempty"})
	for _, v := range vs {
		t := v.Type()
		var x reflect.Value
		switch place {
		case 0:
			x = v
		case 1:
			x = reflect.New(t)
			x.Elem().Set(v)
		case 2:
			x = reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
			x.Index(1).Set(v)
		case 3:
			x = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
			x.SetMapIndex(reflect.ValueOf("k"), v)
		default:
			x = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: reflect.StructTag(fmt.Sprintf("json:%q", tag))}, {Name: "Z", Type: reflect.TypeOf(0)}}))
			x.Elem().Field(0).Set(v)
			if place%2 == 0 {
				x = x.Elem()
			}
		}
		l = append(l, x.Interface())
	}
	return
}

// deepText describes everything reachable from v, spare capacity included.
func deepText(v interface{}) string {
	var sb strings.Builder
	deep(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func deep(sb *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() || d > 60 {
		sb.WriteString("~")
		return
	}
	switch v.Type() {
	case tTime:
		if v.CanInterface() {
			t := v.Interface().(time.Time)
			fmt.Fprintf(sb, "%d.%d%s", t.Unix(), t.Nanosecond(), t.Location())
		}
		return
	case tSyncMap:
		if v.CanAddr() && v.Addr().CanInterface() {
			var es []string
			v.Addr().Interface().(*sync.Map).Range(func(k, e interface{}) bool {
				es = append(es, deepText(k)+"="+deepText(e))
				return true
			})
			sort.Strings(es)
			sb.WriteString("S" + strings.Join(es, ","))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("^")
		deep(sb, v.Elem(), d+1)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "%d/%d[", v.Len(), v.Cap())
		w := v
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w = v.Slice(0, v.Cap())
		}
		for i := 0; i < w.Len(); i++ {
			deep(sb, w.Index(i), d+1)
			sb.WriteString(" ")
		}
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			deep(sb, v.Index(i), d+1)
			sb.WriteString(" ")
		}
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			deep(&e, k, d+1)
			e.WriteString("=")
			deep(&e, v.MapIndex(k), d+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		fmt.Fprintf(sb, "m%v", v.IsNil())
		sb.WriteString(strings.Join(es, ","))
	case reflect.Struct:
		sb.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			deep(sb, v.Field(i), d+1)
			sb.WriteString(";")
		}
	default:
		content(sb, v, 1)
	}
}

// manyEntries reports whether v holds a map with several entries: which of
// several errors is reported is open then.
func manyEntries(v reflect.Value, d int) bool {
	if !v.IsValid() || d > 60 {
		return false
	}
	switch v.Type() {
	case tTime:
		return false
	case tSyncMap:
		return true
	case reflect.TypeOf(HKeyRe{}), reflect.TypeOf(HReP{}):
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && manyEntries(v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if manyEntries(v.Index(i), d+1) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if manyEntries(k, d+1) || manyEntries(v.MapIndex(k), d+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if manyEntries(v.Field(i), d+1) {
				return true
			}
		}
	}
	return false
}

// once makes the call; the slice returned is left as it came.
func (c *hCase) once(i int, r *rand.Rand, again bool) callRes {
	k := c.calls[i]
	v := c.vals[k.v]
	var os []jettison.Option
	lists := [][]string{}
	if len(k.items) > 0 {
		if again && k.pool != nil {
			for _, x := range k.pool {
				os = append(os, c.opool[x])
			}
		} else if again && c.os[i] != nil {
			os = c.os[i]
		} else {
			for _, it := range k.items {
				if it.n == "AllowList" || it.n == "DenyList" {
					l := it.list()
					if it.n == "AllowList" {
						os = append(os, jettison.AllowList(l))
					} else {
						os = append(os, jettison.DenyList(l))
					}
					lists = append(lists, l)
					continue
				}
				os = append(os, it.option())
			}
			if again && k.pool == nil {
				c.os[i] = os
				lists = nil
			}
		}
	}
	var dst []byte
	if k.api >= 2 {
		dst = append(make([]byte, 0, len(k.pre)+k.spare), k.pre...)
	}
	res := guard(func() ([]byte, error) {
		switch k.api {
		case 0:
			return jettison.Marshal(v)
		case 1:
			return jettison.MarshalOpts(v, os...)
		case 2:
			return jettison.Append(dst, v)
		}
		return jettison.AppendOpts(dst, v, os...)
	})
	for _, l := range lists { // the call is over: the lists are ours again
		for j := range l {
			l[j] = "overwritten"
		}
	}
	return res
}

// a slice that was returned, and what was in it
type retained struct {
	b, was []byte
	c      *hCase
	i      int
}

func (c *hCase) note(i int, res callRes, keep *[]retained) {
	if !res.ok {
		res.b = nil
	}
	was := append([]byte(nil), res.b...)
	if res.b != nil && keep != nil {
		*keep = append(*keep, retained{res.b, was, c, i})
	}
	res.b = was
	c.rec[i].r = append(c.rec[i].r, res)
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '!'
	}
}

// history runs the calls of the cases in one order.
func (h *H) history(cs []*hCase, order int) {
	type at struct {
		c *hCase
		i int
	}
	var seq []at
	for _, c := range cs {
		for i := range c.calls {
			seq = append(seq, at{c, i})
		}
	}
	r := rand.New(rand.NewSource(*flagSeed*1000 + int64(order)))
	switch order {
	case 0:
	case 1:
		for i, j := 0, len(seq)-1; i < j; i, j = i+1, j-1 {
			seq[i], seq[j] = seq[j], seq[i]
		}
	case 2: // cases in order, their calls in any order
		r.Shuffle(len(seq), func(i, j int) {
			if seq[i].c == seq[j].c {
				seq[i], seq[j] = seq[j], seq[i]
			}
		})
	default:
		r.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
	}
	var kept []retained
	for n, s := range seq {
		h.beat(s.c.id)
		for rep := 1 + r.Intn(2); rep > 0; rep-- {
			res := s.c.once(s.i, r, r.Intn(2) == 0)
			if res.ok && r.Intn(2) == 0 {
				s.c.note(s.i, res, nil)
				scribble(res.b)
			} else {
				s.c.note(s.i, res, &kept)
			}
		}
		if v := s.c.calls[s.i].v; deepText(s.c.vals[v]) != s.c.desc[v] {
			s.c.rec[s.i].pure = false
			s.c.desc[v] = deepText(s.c.vals[v])
		}
		if r.Intn(200) == 0 {
			runtime.GC()
		}
		if n%64 == 63 && len(kept) > 500 { // look at some
			checkKept(kept[:250])
			kept = append([]retained(nil), kept[250:]...)
		}
	}
	checkKept(kept)
	for _, c := range cs {
		for v := range c.vals {
			if deepText(c.vals[v]) != c.desc[v] {
				for i := range c.calls {
					if c.calls[i].v == v {
						c.rec[i].pure = false
					}
				}
			}
		}
	}
}

func checkKept(l []retained) {
	for _, k := range l {
		if string(k.b) != string(k.was) {
			k.c.rec[k.i].kept = false
		}
	}
}

// together runs the calls of each case at the same time.
func (h *H) together(cs []*hCase, order int) {
	r := rand.New(rand.NewSource(*flagSeed*1000 + int64(order)))
	for n := 0; n < len(cs); {
		m := n + 1 + r.Intn(3) // a few cases at once
		if m > len(cs) {
			m = len(cs)
		}
		group := cs[n:m]
		n = m
		h.beat(group[0].id)
		type res struct {
			c *hCase
			i int
			r callRes
		}
		workers := 2 + r.Intn(7)
		all := make([][]res, workers)
		var ready int32
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			var plan []res
			for _, c := range group {
				for i := range c.calls {
					if r.Intn(3) > 0 || w == i%workers {
						plan = append(plan, res{c: c, i: i})
					}
				}
			}
			if r.Intn(3) > 0 { // most do them in different orders, some in the same
				r.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
			}
			wg.Add(1)
			go func(w int, seed int64) {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seed))
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(workers) {
					runtime.Gosched()
				}
				for _, p := range plan {
					p.r = p.c.once(p.i, rr, p.c.calls[p.i].pool != nil && rr.Intn(2) == 0)
					b := p.r.b
					if !p.r.ok {
						b = nil
					}
					p.r.b = append([]byte(nil), b...)
					all[w] = append(all[w], p)
					if rr.Intn(2) == 0 {
						scribble(b)
					} else if string(b) != string(p.r.b) {
						p.r.x = "changed"
					}
					if rr.Intn(8) == 0 {
						runtime.Gosched()
					}
				}
			}(w, r.Int63())
		}
		wg.Wait()
		for _, l := range all {
			for _, p := range l {
				p.c.rec[p.i].r = append(p.c.rec[p.i].r, p.r)
				if p.r.ok && p.r.x == "changed" {
					p.c.rec[p.i].kept = false
				}
			}
		}
		for _, c := range group {
			for v := range c.vals {
				if deepText(c.vals[v]) != c.desc[v] {
					for i := range c.calls {
						if c.calls[i].v == v {
							c.rec[i].pure = false
						}
					}
				}
			}
		}
	}
}

func text(b []byte) string {
	q := fmt.Sprintf("%q", b)
	if len(q) > 1500 { // long texts: the ends and a digest
		f := fnv.New64a()
		f.Write(b)
		q = q[:700] + fmt.Sprintf("...%d bytes, %x...", len(b), f.Sum64()) + q[len(q)-700:]
	}
	return q
}

func (r callRes) writeText(w *jw) {
	fmt.Fprintf(&w.b, `{"ok":%v,"b":`, r.ok)
	if r.ok {
		w.str(text(r.b))
		w.raw(`,"k":"","t":"","m":"","x":""}`)
		return
	}
	w.raw(`"","k":`)
	w.str(r.k)
	w.raw(`,"t":`)
	w.str(r.t)
	w.raw(`,"m":`)
	w.str(r.m)
	w.raw(`,"x":`)
	w.str(r.x)
	w.raw("}")
}

func (h *H) writeHist(cs []*hCase) {
	for _, c := range cs {
		h.id, h.seq = c.id, 0
		for i, k := range c.calls {
			rec := c.rec[i]
			h.emit("hist", func(w *jw) {
				w.raw(`"ty":`)
				w.str(typeName(c.vals[k.v]))
				w.raw(`,"os":`)
				w.str(fmt.Sprint([]string{"Marshal", "MarshalOpts", "Append", "AppendOpts"}[k.api], k.items))
				fmt.Fprintf(&w.b, `,"exact":%v,"kept":[%v],"pure":[%v],"rs":[`, c.exact[k.v], rec.kept, rec.pure)
				for j, r := range rec.r {
					if j > 0 {
						w.raw(",")
					}
					r.writeText(w)
				}
				w.raw("]")
			})
		}
	}
}

var histDone bool

func (h *H) beat(id int) {
	_, err := h.journal.WriteAt([]byte(fmt.Sprintf("%-12d\n", id)), 0)
	check(err)
	select {
	case h.beats <- id:
	default:
	}
}

func histDriver(h *H, fresh []reflect.Type, run func(cs []*hCase)) {
	if histDone {
		return
	}
	histDone = true
	p := histProfile()
	if fresh != nil {
		p.bad = 0
	}
	var cs []*hCase
	for id := *flagFrom; id < *flagFrom+*flagN; id++ {
		h.id = id
		h.r = caseRand(*flagSeed, *flagProp, id)
		cs = append(cs, h.newCase(p, fresh))
		h.beat(id)
	}
	// what the methods give depends on methRate, which is now fixed
	run(cs)
	h.writeHist(cs)
}

func init() {
	drivers["C19"] = func(h *H) {
		histDriver(h, nil, func(cs []*hCase) { h.history(cs, *flagOrder) })
	}
	drivers["C20"] = func(h *H) {
		histDriver(h, catFresh, func(cs []*hCase) {
			if *flagOrder == 0 {
				h.history(cs, 0)
			} else if *flagOrder >= 100 {
				inTurns(h, cs, *flagOrder)
			} else {
				h.together(cs, *flagOrder)
			}
		})
	}
}

var _ = os.Exit
