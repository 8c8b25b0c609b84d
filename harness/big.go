package main

// Values larger than the sizes at which code tends to change its ways: maps
// with many entries, long texts, structs with many fields, long outputs.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"
)

var counts = []int{6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 66, 100, 127, 128, 129, 150}
var lengths = []int{15, 16, 17, 23, 24, 31, 32, 33, 47, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4094, 4095, 4096, 4097, 5000}

// longText returns about n bytes, of which few need escaping.
func longText(r *rand.Rand, n int) string {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		b = append(b, "abcdefghijklmnopqrstuvwxyz 0123456789"[r.Intn(37)])
	}
	for k := r.Intn(4); k > 0 && n > 0; k-- {
		at := pick(r, []int{0, n - 1, n / 2, r.Intn(n), n - 2, 7, 8, 63, 64})
		if at < 0 || at >= len(b) {
			continue
		}
		p := pick(r, strPieces)
		if r.Intn(2) == 0 { // keep the length
			copy(b[at:], p)
		} else {
			b = append(b[:at], append([]byte(p), b[at:]...)...)
		}
	}
	return string(b)
}

// size of the texts of n entries: sometimes past the usual buffer sizes.
func entryLen(r *rand.Rand, n int) int {
	m := pick(r, []int{0, 0, 200, 1100, 2200, 4500, 9000}) / n
	return m + r.Intn(3)
}

func bigMap(r *rand.Rand) interface{} {
	n := pick(r, counts)
	l := entryLen(r, n)
	key := func(i int) string {
		switch r.Intn(8) {
		case 0:
			return fmt.Sprintf("k%03d<\"", i)
		case 1:
			return fmt.Sprintf("%d", i*7919%10007)
		case 2:
			return strings.Repeat("p", r.Intn(70)) + fmt.Sprint(i)
		}
		b := make([]byte, 1+r.Intn(l/2+3))
		for k := range b {
			b[k] = "abAB_-09<~"[r.Intn(10)]
		}
		return string(b)
	}
	switch r.Intn(6) {
	case 0:
		m := map[int]string{}
		for i := 0; len(m) < n; i++ {
			m[(i*i*31+i*7)%100000-5000] = longText(r, l)
		}
		return m
	case 1:
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[key(i)] = pick(r, []interface{}{i, longText(r, l), nil, []int{i}, map[string]int{"b": i, "a": 1}})
		}
		return m
	case 2:
		m := map[GivenT]uint8{}
		for i := 0; i < n; i++ {
			m[GivenT{key(i)}] = uint8(i)
		}
		return m
	case 3:
		m := map[string]map[string]int{}
		for i := 0; i < n; i++ {
			m[key(i)] = map[string]int{"z": i, key(i): i}
		}
		return m
	case 4:
		m := map[uint64]bool{}
		for i := 0; i < n; i++ {
			m[r.Uint64()>>r.Intn(64)] = i%2 == 0
		}
		return m
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[key(i)] = longText(r, l)
	}
	return m
}

func bigSync(r *rand.Rand) interface{} {
	m := &sync.Map{}
	n := pick(r, counts)
	l := entryLen(r, n)
	for i := 0; i < n; i++ {
		var k interface{}
		switch r.Intn(4) {
		case 0:
			k = i * 13
		case 1:
			k = NStr(fmt.Sprintf("k%d", i))
		default:
			k = fmt.Sprintf("%x%s", i*2654435761%1000003, strings.Repeat("q", r.Intn(l/4+2)))
		}
		m.Store(k, pick(r, []interface{}{i, longText(r, l), nil, "v", []string{"x"}}))
	}
	return m
}

func bigSlice(r *rand.Rand) interface{} {
	n := pick(r, counts)
	l := entryLen(r, n)
	switch r.Intn(7) {
	case 0:
		s := make([]int64, n*3)
		for i := range s {
			s[i] = int64(r.Uint64()) >> r.Intn(64)
		}
		return s
	case 1:
		s := make([]struct {
			A string
			B int `json:",omitempty"`
			C *int
		}, n)
		for i := range s {
			s[i].A, s[i].B = longText(r, l), i%3
		}
		return s
	case 2:
		s := make([]interface{}, n)
		for i := range s {
			s[i] = pick(r, []interface{}{nil, 1, "x", longText(r, l), []interface{}{1.5}, map[string]int{"a": i}, true})
		}
		return s
	case 3:
		s := make([][]string, n)
		for i := range s {
			for k := r.Intn(4); k > 0; k-- {
				s[i] = append(s[i], longText(r, l/2))
			}
		}
		return s
	case 4:
		s := make([]GivenT, n)
		for i := range s {
			s[i].S = longText(r, l)
		}
		return s
	case 5:
		var a [130]interface{}
		for i := range a {
			a[i] = i
		}
		return a
	}
	s := make([]string, n)
	for i := range s {
		s[i] = longText(r, l)
	}
	return s
}

func bigString(r *rand.Rand) interface{} {
	s := longText(r, pick(r, lengths))
	switch r.Intn(6) {
	case 0:
		return map[string]int{s: 1, "a": 2}
	case 1:
		return GivenT{s}
	case 2:
		return map[GivenT]int{{s}: 1}
	case 3:
		return struct {
			A string `json:",string"`
			B string
		}{s, "b"}
	case 4:
		return []byte(s)
	}
	return s
}

func (h *H) bigJSON() interface{} {
	r := h.r
	n := pick(r, lengths)
	var sb strings.Builder
	ws := func() {
		if r.Intn(3) == 0 {
			sb.WriteString(pick(r, []string{" ", "\n\t", "  ", strings.Repeat(" ", 70)}))
		}
	}
	sb.WriteString(pick(r, []string{"", " ", "\n"}))
	sb.WriteString("[")
	for i := 0; sb.Len() < n; i++ {
		if i > 0 {
			sb.WriteString(",")
		}
		ws()
		switch r.Intn(6) {
		case 0:
			sb.WriteString(`{"k" : "<a b>"}`)
		case 1:
			sb.WriteString(`"` + strings.Repeat("x ", r.Intn(n/8+2)) + pick(r, []string{"", "\u2028", "&", "\\\"", "\\\\", "\\u0041"}) + `"`)
		case 2:
			sb.WriteString("-12.5e+10")
		case 3:
			sb.WriteString("null")
		case 4:
			d := 1 + r.Intn(30)
			sb.WriteString(strings.Repeat("[", d) + strings.Repeat("]", d))
		default:
			sb.WriteString("true")
		}
		ws()
	}
	sb.WriteString("]")
	sb.WriteString(pick(r, []string{"", " ", "\n"}))
	s := sb.String()
	if r.Intn(6) == 0 { // break it, often at the end
		at := pick(r, []int{len(s) - 1, len(s) / 2, r.Intn(len(s)), len(s) - 2, 0})
		s = s[:at] + pick(r, []string{"", "]", ",", "x", "\"", "}"}) + s[at+1:]
	}
	switch r.Intn(4) {
	case 0:
		return json.RawMessage(s)
	case 1:
		return map[string]interface{}{"a": GivenJ{[]byte(s)}, "b": 1}
	case 2:
		return []json.RawMessage{json.RawMessage(s), json.RawMessage("1")}
	}
	return GivenJ{[]byte(s)}
}

// bigStruct has many fields, or fields embedded deep down.
func (h *H) bigStruct() (v interface{}) {
	r := h.r
	g := h.newGen(&profile{leaf: join(scalars, types((*int)(nil), []int{}, map[string]int{}, time.Time{}, time.Duration(0), new(interface{}))), nilp: 0.4, zero: 0.3, dyn: scalars, strs: []string{"", "a", "b<"}})
	tags := []string{"", "", "", ",omitempty", ",omitempty", ",omitnil", ",string", "-", "x%d", "n%d<", "x%d,omitempty", "F%d", "F1"}
	n := pick(r, []int{9, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70})
	field := func(i int) reflect.StructField {
		t := pick(r, tags)
		if strings.Contains(t, "%d") {
			t = fmt.Sprintf(t, r.Intn(40+n*(i%2)))
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: pick(r, g.p.leaf)}
		if t != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", t))
		}
		return f
	}
	if r.Intn(6) == 0 {
		n = pick(r, []int{127, 128, 129, 255, 256, 257, 260, 300})
	}
	var fs []reflect.StructField
	if r.Intn(3) > 0 {
		for i := 0; i < n; i++ {
			fs = append(fs, field(i))
		}
		return g.value(reflect.StructOf(fs), 3).Interface()
	}
	// embedded in one another
	d := 3 + r.Intn(9)
	t := reflect.StructOf([]reflect.StructField{field(0), field(1)})
	for k := 1; k < d; k++ {
		e := t
		if r.Intn(3) == 0 {
			e = reflect.PtrTo(t)
		}
		fs = []reflect.StructField{{Name: "E", Type: e, Anonymous: true}}
		for i := r.Intn(3); i > 0; i-- {
			f := field(2*k + i)
			if r.Intn(2) == 0 {
				fs = append(fs, f)
			} else {
				fs = append([]reflect.StructField{f}, fs...)
			}
		}
		t = reflect.StructOf(fs)
	}
	g.p.nilp, g.p.zero = 0.1, 0.05
	return g.value(t, 20).Interface()
}

// bigDeep is nested some levels.
func bigDeep(r *rand.Rand) interface{} {
	d := pick(r, []int{5, 8, 15, 16, 17, 31, 32, 33, 40})
	switch r.Intn(3) {
	case 0: // pointers
		v := reflect.ValueOf(pick(r, []interface{}{1, "x", []int{1}, map[string]int{"a": 1}, GivenT{"t"}, time.Second, struct{ P *int }{}}))
		for k := 0; k < d; k++ {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		return v.Interface()
	case 1: // different kinds
		g := &gen{r: r, p: &profile{}}
		v := reflect.ValueOf(pick(r, []interface{}{1, "x", 1.5, nil, []byte("ab")}))
		if !v.IsValid() {
			v = reflect.ValueOf((*int)(nil))
		}
		for k := 0; k < d && k < 17; k++ {
			v = g.inPosition(v)
		}
		return v.Interface()
	}
	return deepValue(r.Intn(7), d)
}

// bigItems: options that leave what is written determined, nearly always.
func bigItems(r *rand.Rand) []optItem {
	return someOpts(r, []string{"NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping", "NoCompact", "NilMapEmpty", "NilSliceEmpty", "RawByteSlice", "DurationFormat", "UnixTime", "UnsortedMap"}, 2)
}

func init() {
	shapes := map[string]func(h *H) interface{}{
		"maps":    func(h *H) interface{} { return bigMap(h.r) },
		"sync":    func(h *H) interface{} { return bigSync(h.r) },
		"slices":  func(h *H) interface{} { return bigSlice(h.r) },
		"strings": func(h *H) interface{} { return bigString(h.r) },
		"texts":   func(h *H) interface{} { return h.bigJSON() },
		"fields":  func(h *H) interface{} { return h.bigStruct() },
		"deep":    func(h *H) interface{} { return bigDeep(h.r) },
	}
	names := []string{"maps", "sync", "slices", "strings", "texts", "fields", "deep"}
	shapes["all"] = func(h *H) interface{} { return shapes[pick(h.r, names)](h) }
	place := func(h *H, v interface{}) interface{} {
		switch h.r.Intn(4) {
		case 0:
			return h.newGen(&profile{leaf: scalars}).positions(reflect.ValueOf(v), 1)
		case 1:
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			return p.Interface()
		}
		return v
	}
	drivers["big-lists"] = func(h *H) {
		v := h.bigStruct()
		names := fieldJSONNames(reflect.TypeOf(v))
		h.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:h.r.Intn(len(names)+1)]
		items := []optItem{optOf(h.r, pick(h.r, []string{"AllowList", "DenyList"}), names)}
		if h.r.Intn(4) == 0 {
			items = append(items, optOf(h.r, pick(h.r, []string{"AllowList", "DenyList"}), names))
		}
		h.marshalCase("enc", place(h, v), items)
	}
	for n, f := range shapes {
		f := f
		drivers["big-"+n] = func(h *H) {
			h.appendCase("appendenc", place(h, f(h)), bigItems(h.r))
		}
		drivers["biga-"+n] = func(h *H) {
			h.appendCase("append", place(h, f(h)), bigItems(h.r))
		}
		drivers["bigwf-"+n] = func(h *H) {
			goodMeth = cleanJSON
			items := filterItems(filterItems(filterItems(bigItems(h.r), "NoStringEscaping"), "NoUTF8Coercion"), "NoCompact")
			h.marshalCase("wf", place(h, f(h)), items)
		}
		drivers["bigstd-"+n] = func(h *H) {
			v := f(h)
			if !dynOK(reflect.ValueOf(v), stdTypeOK, 0) || !stdTypeOK(reflect.TypeOf(v)) {
				h.skip("not encoding/json's")
				return
			}
			v = place(h, v)
			h.enc("std", v, nil, marshal(v, nil), func(w *jw) {
				r := guard(func() ([]byte, error) { return json.Marshal(v) })
				w.raw(`,"std":`)
				r.write(w)
			})
		}
	}
}
