package main

// Values much larger than the specification can spell out.  A value of n
// repetitions is encoded as A U^n M W^n B, with the parts that the values of one
// and of two repetitions show: the specification encodes these two, and what the
// code writes for n is given by the parts found in it (JJudge, "huge").

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/wI2L/jettison"
)

// A hugeShape makes a value of n repetitions.  Its text has la bytes before the
// repetitions, and lw bytes for each of them, and lb at the end, behind the middle.
type hugeShape struct {
	mk         func(n int) interface{}
	unit       int // about how long a repetition is
	most       int // of repetitions
	la, lw, lb int
}

type hugeList struct {
	Next *hugeList
	V    int `json:"v"`
}
type hugeTree struct {
	K []hugeTree          `json:"k"`
	M map[string]hugeTree `json:"m,omitempty"`
}
type hugeMap map[string]hugeMap
type hugeBytes []byte
type hugeQuoted struct {
	F string `json:",string"`
}

func rep(lead, p string, n int, tail string) string {
	var b strings.Builder
	b.WriteString(lead)
	for i := 0; i < n; i++ {
		b.WriteString(p)
	}
	b.WriteString(tail)
	return b.String()
}

// pieces are texts of pieces none of which runs into the next one.
func pieces(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("abcdefghijklm"[:r.Intn(14)])
		b.WriteString("n" + pick(r, strPieces) + "o")
	}
	return b.String()
}

func (h *H) hugeBytes(raw bool) hugeShape {
	r := h.r
	p, t := make([]byte, 3*(1+r.Intn(30))), make([]byte, r.Intn(6))
	lead := make([]byte, 3*r.Intn(3))
	r.Read(p)
	r.Read(t)
	for i := range p { // no sequences across the ends
		if i == 0 || i == len(p)-1 {
			p[i] &= 0x7f
		}
		if r.Intn(2) == 0 {
			p[i] &= 0x7f
		}
	}
	if len(t) > 0 {
		t[0] &= 0x7f
	}
	bs := func(n int) []byte { return []byte(rep(string(lead), string(p), n, string(t))) }
	s := hugeShape{unit: len(p), la: 1 + len(lead)/3*4}
	for i := range lead {
		lead[i] = 'l'
	}
	if raw {
		s.la = 1 + len(lead)
	}
	switch r.Intn(6) {
	case 0:
		s.mk = func(n int) interface{} { return hugeBytes(bs(n)) }
	case 1:
		s.mk = func(n int) interface{} { b := bs(n); return &b }
	case 2:
		s.mk = func(n int) interface{} { return []interface{}{bs(n)} }
		s.la++
	case 3:
		s.mk = func(n int) interface{} { return map[string][]byte{"k": bs(n)} }
		s.la += 5
	default:
		s.mk = func(n int) interface{} { return bs(n) }
	}
	return s
}

// byteArray: as a list, or as a text.
func (h *H) hugeArray(text bool) hugeShape {
	r := h.r
	p := pieces(r, 1+r.Intn(4))
	t := pieces(r, 1)
	s := hugeShape{unit: len(p), la: 1}
	s.mk = func(n int) interface{} {
		b := []byte(rep("", p, n, t))
		v := reflect.New(reflect.ArrayOf(len(b), reflect.TypeOf(byte(0)))).Elem()
		reflect.Copy(v, reflect.ValueOf(b))
		return v.Interface()
	}
	return s
}

func (h *H) hugeText() hugeShape {
	r := h.r
	l := "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"[:r.Intn(32)]
	p, t := pieces(r, 1+r.Intn(5)), pieces(r, r.Intn(3))
	tx := func(n int) string { return rep(l, p, n, t) }
	s := hugeShape{unit: len(p), la: 1 + len(l)}
	switch r.Intn(9) {
	case 0:
		s.mk = func(n int) interface{} { return GivenT{tx(n)} }
	case 1:
		s.mk = func(n int) interface{} { return hugeQuoted{tx(n)} }
		s.la += 7
	case 2:
		s.mk = func(n int) interface{} { return map[string]int{tx(n): 1} }
		s.la++
	case 3:
		s.mk = func(n int) interface{} { m := new(sync.Map); m.Store(tx(n), 1); return m }
		s.la++
	case 4:
		s.mk = func(n int) interface{} {
			m := new(sync.Map)
			m.Store("k", map[string]interface{}{"k": tx(n)})
			return m
		}
		s.la += 10
	case 5:
		s.mk = func(n int) interface{} { return map[GivenT]string{{tx(n)}: "v"} }
		s.la++
	case 6:
		s.mk = func(n int) interface{} { x := tx(n); return []*string{&x} }
		s.la++
	default:
		s.mk = func(n int) interface{} { return tx(n) }
	}
	return s
}

func (h *H) hugeJSON() hugeShape {
	r := h.r
	elems := []string{`1`, ` "a<\u00e9" `, `{"a" : [ ] }`, "\"\u2028 x\"", `null`, "[1 ,\n 2]", `"\\"`, ` "x\"y & z"`, ` -1.5e+3`, `""`, "\t{}\r\n"}
	var p, t string
	s := hugeShape{la: 1}
	one := func() string { return pick(r, elems) }
	switch r.Intn(6) {
	case 0: // inside of a string
		in := []string{"a", "<", `\"`, `\\`, "\u2028", `\u00e9`, "é", " ", "/", "\t"[:0], `\/`, "&", "[", ":"}
		for k := 1 + r.Intn(9); k > 0; k-- {
			p += pick(r, in)
		}
		p += "z"
		t = pick(r, []string{`"`, `x"`, ` " `, `\u00zz"`, "", "\n\"", `\"`, `" "`})
		s.mk = func(n int) interface{} { return rep(`"`, p, n, t) }
	case 1: // nested
		t = pick(r, []string{"1", " [] ", `"]"`, "", "1,", "x"})
		s = hugeShape{most: 9000, lw: 1}
		s.mk = func(n int) interface{} { return strings.Repeat("[ ", n) + t + strings.Repeat("]", n) }
		if r.Intn(2) == 0 {
			s.mk = func(n int) interface{} { return strings.Repeat(` {"k" :`, n) + t + strings.Repeat("}", n) }
		}
		p = "[ "
	case 2: // members of an object
		p = `"k" : ` + one() + `, "<" : ` + one() + ` ,`
		t = pick(r, []string{`"e":1}`, ` "e" : {} } `, `}`, `"e":1}}`, `"e":1`, `1}`})
		s.mk = func(n int) interface{} { return rep("{", p, n, t) }
	default:
		for k := 1 + r.Intn(4); k > 0; k-- {
			p += one() + pick(r, []string{",", " , ", ",\n\t"})
		}
		t = pick(r, []string{"1]", ` "]" ] `, "2 ]\n", "]", "1]]", "1", "1 2]", `"]`, "1]\x00", "nul]"})
		s.mk = func(n int) interface{} { return rep("[", p, n, t) }
	}
	s.unit = len(p)
	text := s.mk
	switch r.Intn(4) {
	case 0:
		s.mk = func(n int) interface{} { return GivenJ{[]byte(text(n).(string))} }
	case 1:
		s.mk = func(n int) interface{} { return &GivenJ{[]byte(text(n).(string))} }
	case 2:
		s.mk = func(n int) interface{} { return []json.RawMessage{json.RawMessage(text(n).(string))} }
		s.la++
		if s.lw > 0 {
			s.lb++
		}
	default:
		s.mk = func(n int) interface{} { return json.RawMessage(text(n).(string)) }
	}
	return s
}

func (h *H) hugeNumber() hugeShape {
	r := h.r
	p := pick(r, []string{"0", "12", "907", "00000000"})
	t := pick(r, []string{"", ".5", "e10", "E-2", "x", ".", "e", "-", " "})
	l := pick(r, []string{"1", "-9", "0.", "1e", "-2", "00", ".", "1.5e-"})
	s := hugeShape{unit: len(p), la: len(l)}
	s.mk = func(n int) interface{} { return json.Number(rep(l, p, n, t)) }
	if r.Intn(2) == 0 {
		s.mk = func(n int) interface{} { return map[string]json.Number{"k": json.Number(rep(l, p, n, t))} }
		s.la += 5
	}
	return s
}

func (h *H) hugeSlice() hugeShape {
	r := h.r
	s := hugeShape{la: 1, unit: 8}
	k := 1 + r.Intn(5)
	g := h.newGen(&profile{leaf: scalars, kinds: "lsmp", depth: 1, dyn: scalars})
	elem := func(i, n int) bool { return i < n } // of the repetitions
	list := func(n int, rest []interface{}, one []interface{}) []interface{} {
		var l []interface{}
		for i := 0; elem(i, n); i++ {
			l = append(l, one...)
		}
		return append(l, rest...)
	}
	var one, rest []interface{}
	for i := 0; i < k; i++ {
		one = append(one, g.value(reflect.TypeOf((*interface{})(nil)).Elem(), 1).Interface())
	}
	rest = append(rest, pick(r, []interface{}{1, "x", nil, []int{}, math.NaN(), make(chan int), GivenJ{[]byte("{")}, true}))
	switch r.Intn(6) {
	case 0:
		s.mk = func(n int) interface{} { return list(n, rest, one) }
	case 1:
		s.mk = func(n int) interface{} { l := list(n, rest, one); return &l }
	case 2: // an array
		s.mk = func(n int) interface{} {
			l := list(n, rest, one)
			v := reflect.New(reflect.ArrayOf(len(l), reflect.TypeOf(l).Elem())).Elem()
			reflect.Copy(v, reflect.ValueOf(l))
			return v.Interface()
		}
	case 3:
		x := []int{r.Int() >> r.Intn(62), -r.Int() >> r.Intn(62), 0}
		s.mk = func(n int) interface{} {
			var l []int
			for i := 0; i < n; i++ {
				l = append(l, x...)
			}
			return append(l, 7)
		}
	case 4:
		x := []string{pieces(r, 1), pieces(r, 2)}
		s.mk = func(n int) interface{} {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, x...)
			}
			return append(l, "e")
		}
	case 5: // of maps
		x := map[string]interface{}{"b": one[0], "a": 1}
		s.mk = func(n int) interface{} {
			var l []map[string]interface{}
			for i := 0; i < n; i++ {
				l = append(l, x)
			}
			return append(l, nil)
		}
	}
	return s
}

// hugeDeep is nested n times.
func (h *H) hugeDeep() hugeShape {
	r := h.r
	s := hugeShape{unit: 2, most: 6000, lw: 1}
	end := pick(r, []interface{}{1, "]", nil, []int{}, math.Inf(1), []byte("\xff")})
	nest := func(f func(v interface{}) interface{}) func(n int) interface{} {
		return func(n int) interface{} {
			v := end
			for i := 0; i < n; i++ {
				v = f(v)
			}
			return v
		}
	}
	switch r.Intn(9) {
	case 0:
		s.mk = nest(func(v interface{}) interface{} { return []interface{}{v} })
	case 1:
		s.mk = nest(func(v interface{}) interface{} { return map[string]interface{}{"k": v} })
	case 2:
		s.mk = nest(func(v interface{}) interface{} { return &v })
		s.lw = 0
	case 3:
		s.mk = nest(func(v interface{}) interface{} { return struct{ A interface{} }{v} })
	case 4:
		s.mk = nest(func(v interface{}) interface{} { m := new(sync.Map); m.Store("k", v); return m })
	case 5:
		s.mk = nest(func(v interface{}) interface{} { return &[1]interface{}{v} })
	case 6:
		s.mk = func(n int) interface{} {
			l := &hugeList{V: 1}
			for i := 0; i < n; i++ {
				l = &hugeList{Next: l, V: 2}
			}
			return l
		}
		s.lw = len(`,"v":2}`)
	case 7:
		s.mk = func(n int) interface{} {
			t := hugeTree{K: []hugeTree{}}
			for i := 0; i < n; i++ {
				t = hugeTree{K: []hugeTree{t}}
			}
			return t
		}
		s.lw = 2
	case 8:
		s.mk = func(n int) interface{} {
			m := hugeMap{}
			for i := 0; i < n; i++ {
				m = hugeMap{"k": m}
			}
			return m
		}
	}
	return s
}

func (h *H) huge(s hugeShape, items []optItem) {
	r := h.r
	bytesOf := pick(r, []int{4096, 8192, 10000, 16384, 32768, 65536, 65536, 131072, 300000})
	if r.Intn(40) == 0 {
		bytesOf = 1 << 20
	}
	n := bytesOf/s.unit + pick(r, []int{-1, 0, 0, 1, 2, r.Intn(50)})
	if s.most > 0 {
		n = 1 + pick(r, []int{500, 990, 998, 999, 1000, 1001, 1500, s.most})
		if n > s.most {
			n = s.most
		}
	}
	n1, ok := h.node(s.mk(1), items)
	if !ok {
		return
	}
	n2, ok := h.node(s.mk(2), items)
	if !ok {
		return
	}
	pre := []byte(pick(r, []string{"", "", "x", "[1,"}))
	call := func(v interface{}, way int) callRes {
		os := options(items)
		return guard(func() ([]byte, error) {
			switch way {
			case 0:
				return jettison.AppendOpts(append([]byte(nil), pre...), v, os...)
			case 1: // much room
				return jettison.AppendOpts(append(make([]byte, 0, len(pre)+r.Intn(2*bytesOf)), pre...), v, os...)
			}
			b, err := jettison.MarshalOpts(v, os...)
			return append(append([]byte(nil), pre...), b...), err
		})
	}
	way := r.Intn(4)
	g1, g2 := call(s.mk(1), way), call(s.mk(2), way)
	v := s.mk(n)
	g := call(v, way)
	lu := len(g2.b) - len(g1.b) - s.lw
	la := len(pre) + s.la
	// the parts of g
	var a, u, m, w, b []byte
	k, j := 0, 0
	if g.ok && lu > 0 && len(g.b) >= la+lu+s.lw+s.lb {
		t := g.b
		a, t = t[:la], t[la:]
		b, t = t[len(t)-s.lb:], t[:len(t)-s.lb]
		u, w = t[:lu], t[len(t)-s.lw:]
		for k < n && bytes.HasPrefix(t, u) {
			t, k = t[lu:], k+1
		}
		for j < n && s.lw > 0 && bytes.HasSuffix(t, w) {
			t, j = t[:len(t)-s.lw], j+1
		}
		m = t
	} else {
		m = g.b
	}
	if len(m) > 3000 {
		m = append(m[:3000:3000], "..."...)
	}
	if !g.ok {
		m = nil
	}
	for _, x := range []*callRes{&g1, &g2, &g} {
		if !x.ok || x == &g {
			x.b = nil
		}
	}
	h.emit("huge", func(x *jw) {
		x.raw(`"ty":`)
		x.str(typeName(v))
		x.raw(`,"os":`)
		x.str(fmt.Sprint(items))
		x.raw(",")
		writeOpts(x, items)
		x.raw(`,"vs":[`)
		x.b.Write(n1)
		x.raw(",")
		x.b.Write(n2)
		x.raw(`],"gs":[`)
		g1.write(x)
		x.raw(",")
		g2.write(x)
		fmt.Fprintf(&x.b, `],"n":%d,"la":%d,"lw":%d,"lb":%d,"k":%d,"j":%d,"pre":`, n, la, s.lw, s.lb, k, j)
		x.bytes(pre)
		for i, p := range [][]byte{a, u, m, w, b} {
			fmt.Fprintf(&x.b, `,"p%d":`, i+1)
			x.bytes(p)
		}
		x.raw(`,"g":`)
		g.write(x)
	})
}

func init() {
	none := func(h *H) []optItem { return nil }
	someOf := func(names ...string) func(h *H) []optItem {
		return func(h *H) []optItem { return someOpts(h.r, names, 2) }
	}
	texts := someOf("NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping", "NilSliceEmpty", "NilMapEmpty")
	type sh struct {
		f func(h *H) hugeShape
		o func(h *H) []optItem
	}
	shapes := map[string]sh{
		"bytes":  {func(h *H) hugeShape { return h.hugeBytes(false) }, none},
		"raw":    {func(h *H) hugeShape { return h.hugeBytes(true) }, func(h *H) []optItem { return append(texts(h), one("RawByteSlice")) }},
		"text":   {func(h *H) hugeShape { return h.hugeText() }, texts},
		"json":   {func(h *H) hugeShape { return h.hugeJSON() }, someOf("NoHTMLEscaping", "NoCompact", "NoStringEscaping")},
		"entry":  {func(h *H) hugeShape { return h.hugeEntry() }, texts},
		"number": {func(h *H) hugeShape { return h.hugeNumber() }, someOf("NoNumberValidation")},
		"list":   {func(h *H) hugeShape { return h.hugeSlice() }, texts},
		"deep":   {func(h *H) hugeShape { return h.hugeDeep() }, someOf("NilSliceEmpty", "NilMapEmpty", "UnsortedMap")},
		"array":  {func(h *H) hugeShape { return h.hugeArray(false) }, none},
		"arrstr": {func(h *H) hugeShape { return h.hugeArray(true) }, func(h *H) []optItem { return append(texts(h), one("ByteArrayAsString")) }},
	}
	names := []string{"bytes", "raw", "text", "json", "number", "list", "deep", "array", "arrstr", "entry"}
	for n, s := range shapes {
		s := s
		drivers["huge-"+n] = func(h *H) { h.huge(s.f(h), s.o(h)) }
	}
	drivers["huge"] = func(h *H) { s := shapes[pick(h.r, names)]; h.huge(s.f(h), s.o(h)) }
	drivers["huge-anybytes"] = func(h *H) {
		s := shapes[pick(h.r, []string{"bytes", "bytes", "raw", "arrstr", "array"})]
		h.huge(s.f(h), s.o(h))
	}
}

// manyEntries: maps with very many entries, whose keys come in no order.
func (h *H) manyEntries() {
	r := h.r
	n := pick(r, []int{200, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025})
	long := r.Intn(3) == 0 && n <= 500
	m := map[string]interface{}{}
	g := h.newGen(&profile{leaf: scalars, kinds: "", depth: 0, dyn: scalars})
	for i := 0; i < n; i++ {
		k := fmt.Sprint(r.Intn(1 << 20))
		switch r.Intn(6) {
		case 0:
			k = "k" + k
		case 1:
			k += pick(r, strPieces)
		}
		var v interface{} = i
		if long {
			v = strings.Repeat("v", r.Intn(100))
		} else if r.Intn(4) == 0 {
			v = g.value(reflect.TypeOf((*interface{})(nil)).Elem(), 1).Interface()
		}
		m[k] = v
	}
	var v interface{} = m
	switch r.Intn(4) {
	case 0:
		s := new(sync.Map)
		for k, e := range m {
			s.Store(k, e)
		}
		v = s
	case 1:
		x := map[int32]interface{}{}
		for i := 0; i < n; i++ {
			x[int32(r.Uint32())>>uint(r.Intn(32))] = i
		}
		v = x
	}
	h.marshalCase("enc", v, someOpts(r, []string{"NoHTMLEscaping", "NoUTF8Coercion", "NilMapEmpty"}, 2))
}

// hugeEntry: maps with an entry whose text, or key, is long.
func (h *H) hugeEntry() hugeShape {
	r := h.r
	p, t := pieces(r, 1+r.Intn(5)), pieces(r, r.Intn(3))
	tx := func(n int) string { return rep("a", p, n, t) }
	s := hugeShape{unit: len(p), la: 3}
	var rest []interface{} // keys that are after the long one, and their values
	for k := r.Intn(4); k > 0; k-- {
		rest = append(rest, fmt.Sprint("z", k), pick(r, []interface{}{1, "x", nil, []int{}, map[string]int{"z": 1, "y": 2}}))
	}
	key := r.Intn(3) == 0
	if !key {
		s.la = len(`{"a":"a`)
	}
	long := func(n int) (string, interface{}) {
		if key {
			return tx(n), 1
		}
		return "a", tx(n)
	}
	mk := func(n int) map[string]interface{} {
		k, v := long(n)
		m := map[string]interface{}{k: v}
		for i := 0; i < len(rest); i += 2 {
			m[rest[i].(string)] = rest[i+1]
		}
		return m
	}
	switch r.Intn(4) {
	case 0:
		s.mk = func(n int) interface{} {
			m := new(sync.Map)
			for k, v := range mk(n) {
				m.Store(k, v)
			}
			return m
		}
	case 1:
		s.mk = func(n int) interface{} { return []interface{}{mk(n), 1} }
		s.la++
	case 2:
		s.mk = func(n int) interface{} { return map[string]interface{}{"k": mk(n), "l": true} }
		s.la += 5
	default:
		s.mk = func(n int) interface{} { return mk(n) }
	}
	return s
}

func init() { drivers["huge-maps"] = func(h *H) { h.manyEntries() } }
