package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/wI2L/jettison"
)

// embedTree returns a struct type with embedded structs, made at run time.
func (g *gen) embedTree(depth int) (t reflect.Type) {
	r := g.r
	var fs []reflect.StructField
	used := map[string]bool{}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		var f reflect.StructField
		if depth > 0 && r.Intn(2) == 0 {
			f.Anonymous = true
			f.Name = pick(r, []string{"P", "Q", "R", "S"})
			if r.Intn(3) == 0 && len(g.p.embed) > 0 {
				e := pick(r, g.p.embed)
				if e.Name()[0] > 'Z' || hasMethods(e) {
					continue
				}
				f.Type, f.Name = e, e.Name()
			} else {
				f.Type = g.embedTree(depth - 1)
			}
			if r.Intn(3) == 0 {
				f.Type = reflect.PtrTo(f.Type)
			}
		} else {
			f.Name = pick(r, []string{"A", "B", "C", "D"})
			if r.Intn(16) == 0 {
				f.Name = longName(r, f.Name)
			}
			f.Type = pick(r, scalars)
		}
		if used[f.Name] {
			continue
		}
		used[f.Name] = true
		if r.Intn(3) == 0 {
			nm := pick(r, []string{"A", "B", "C", "x", "", "-", "n<>"})
			if r.Intn(12) == 0 {
				nm = longName(r, nm)
			}
			f.Tag = tagText(r, nm+pick(r, g.p.tags))
		}
		fs = append(fs, f)
	}
	defer func() {
		if recover() != nil {
			t = pick(g.r, g.p.embed)
		}
	}()
	return reflect.StructOf(fs)
}

// jsonText returns a JSON text with odd white space, or something close to one.
func (h *H) jsonText() string {
	r := h.r
	switch r.Intn(5) {
	case 0:
		return pick(r, goodJSON)
	case 1:
		return pick(r, badJSON)
	}
	var sb strings.Builder
	ws := func() {
		for r.Intn(3) == 0 {
			sb.WriteString(pick(r, []string{" ", "\n", "\t", "\r", "  "}))
		}
	}
	str := func() {
		sb.WriteByte('"')
		for n := r.Intn(5); n > 0; n-- {
			sb.WriteString(pick(r, []string{"a", " ", "\\\"", "\\\\", "\\n", "\\u00e9", "\\u2028", "<", ">", "&", "é", "\u2028", "\u2029", "\u2027", "\\/", ",", ":", "{", "]", "\\\\\\\"", "  ", "\x7f", "世", "\\ud83d\\ude00"}))
		}
		sb.WriteByte('"')
	}
	var val func(d int)
	val = func(d int) {
		ws()
		k := r.Intn(8)
		if d <= 0 && k >= 6 {
			k = r.Intn(6)
		}
		switch k {
		case 0:
			sb.WriteString("null")
		case 1:
			sb.WriteString(pick(r, []string{"true", "false"}))
		case 2:
			sb.WriteString(pick(r, []string{"0", "-0", "1.5", "1e10", "-12.25E-3", "10", "9e+1"}))
		case 3, 4, 5:
			str()
		case 6:
			sb.WriteByte('[')
			ws()
			for i, n := 0, r.Intn(4); i < n; i++ {
				if i > 0 {
					sb.WriteByte(',')
				}
				val(d - 1)
			}
			sb.WriteByte(']')
		case 7:
			sb.WriteByte('{')
			ws()
			for i, n := 0, r.Intn(4); i < n; i++ {
				if i > 0 {
					sb.WriteByte(',')
					ws()
				}
				str()
				ws()
				sb.WriteByte(':')
				val(d - 1)
			}
			sb.WriteByte('}')
		}
		ws()
	}
	val(3)
	s := sb.String()
	if r.Intn(4) == 0 && len(s) > 0 { // break it
		b := []byte(s)
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = pick(r, []byte(`{}[]",:0e- a\`))
		case 2:
			b = append(b[:i], append([]byte{pick(r, []byte("{}[]\",:0e- a\\\n\x01"))}, b[i:]...)...)
		case 3:
			b = b[:i]
		}
		s = string(b)
	}
	return s
}

// numberText returns something that looks like a number.
func (h *H) numberText() string {
	r := h.r
	switch r.Intn(4) {
	case 0:
		return pick(r, goodNumbers)
	case 1:
		return pick(r, badNumbers)
	}
	n := r.Intn(9)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(r, []string{"0", "1", "9", "5", "-", "+", ".", "e", "E", "0", "12", " ", "00"}))
	}
	if r.Intn(2) == 0 { // nearly always valid
		s := fmt.Sprint(r.Intn(2000) - 1000)
		if r.Intn(2) == 0 {
			s += "." + fmt.Sprint(r.Intn(1000))
		}
		if r.Intn(2) == 0 {
			s += pick(r, []string{"e", "E", "e-", "E+", "e+", "e+-", "ee", ""}) + fmt.Sprint(r.Intn(100))
		}
		return s
	}
	return sb.String()
}

// appendCase records Marshal and Append side by side.
func (h *H) appendCase(kind string, v interface{}, items []optItem) {
	r := h.r
	pre := []byte(pick(r, []string{"", "x", "{\"a\":", "null", "[1,", "\xff\x00", "0123456789abcdef"}))
	spare := pick(r, []int{0, 0, 1, 2, 3, 5, 8, 16, 64, 500, 6000})
	if r.Intn(5) == 0 {
		pre = nil
	} else if r.Intn(40) == 0 {
		pre = []byte(strings.Repeat("0123456789 \"<", pick(r, []int{20, 79, 315, 320})+r.Intn(3)))
	}
	if kind == "append" && r.Intn(12) == 0 {
		pre, v = []byte(h.jsonText()), inMemory(r)
	}
	h.appendTo(kind, v, items, pre, spare)
}

// inMemory gives what makes a value that holds the memory of dst, as far as
// its length.
func inMemory(r *rand.Rand) interface{} {
	n, from, to := r.Intn(7), r.Intn(3), r.Intn(3)
	return func(dst []byte) interface{} {
		b := dst[:len(dst):len(dst)]
		if len(b) > 6 {
			b = b[from : len(b)-to]
		}
		switch n {
		case 0:
			return json.RawMessage(b)
		case 1:
			return b
		case 2:
			return GivenJ{b}
		case 3:
			return []interface{}{json.RawMessage(b), b, GivenT{"t"}}
		case 4:
			return map[string]json.RawMessage{"a": b, "b": b}
		case 5:
			return struct {
				A, B []byte
				C    json.RawMessage
			}{b, dst[:0], b}
		}
		return &b
	}
}

// appendTo appends to pre (nil: a nil dst), with room for spare bytes.
func (h *H) appendTo(kind string, v interface{}, items []optItem, pre []byte, spare int) {
	// dst: nil, or a slice of a larger array
	var dst, arr []byte
	if pre != nil {
		arr = make([]byte, len(pre)+spare+8)
		for i := range arr {
			arr[i] = '#'
		}
		copy(arr, pre)
		dst = arr[: len(pre) : len(pre)+spare]
	}
	if mk, ok := v.(func(dst []byte) interface{}); ok { // a value in dst's own memory
		v = mk(dst)
	}
	n, ok := h.node(v, items)
	if !ok {
		return
	}
	os := options(items)
	m := guard(marshal(v, items))
	a := guard(func() ([]byte, error) {
		if len(items) == 0 {
			return jettison.Append(dst, v)
		}
		return jettison.AppendOpts(dst, v, os...)
	})
	after := append([]byte(nil), dst...)
	if pre != nil && string(arr[len(arr)-8:]) != "########" {
		after = append(after, "written behind the capacity"...)
	}
	ab := append([]byte(nil), a.b...) // before anything else touches it
	if !a.ok {
		ab = nil
	}
	h.emit(kind, func(w *jw) {
		w.raw(`"ty":`)
		w.str(typeName(v))
		w.raw(`,"os":`)
		w.str(fmt.Sprint(items))
		w.raw(",")
		writeOpts(w, items)
		writeNode(w, n)
		w.raw(`,"pre":`)
		w.bytes(pre)
		w.raw(`,"after":`)
		w.bytes(after)
		fmt.Fprintf(&w.b, `,"spare":%d,"g":`, spare)
		m.write(w)
		w.raw(`,"a":`)
		a.b = ab
		a.write(w)
	})
}

// stringCase: C03.
func (h *H) stringCase() {
	r := h.r
	var items []optItem
	for _, n := range []string{"NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping"} {
		if r.Intn(4) == 0 {
			items = append(items, one(n))
		}
	}
	g := h.newGen(&profile{})
	gen := func() string {
		switch r.Intn(6) {
		case 0: // close to the boundaries of UTF-8
			var b []byte
			for n := 1 + r.Intn(2); n > 0; n-- {
				b = append(b, pick(r, []byte{0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xe2, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff, 0x80, 0x7f}))
				for k := r.Intn(4); k > 0; k-- {
					b = append(b, pick(r, []byte{0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa7, 0xa8, 0xa9, 0xaa, 0xbf, 0xc0}))
				}
			}
			return string(b)
		case 1: // one piece within a long plain string
			n := r.Intn(80)
			s := strings.Repeat("x", n) + pick(r, strPieces) + strings.Repeat("y", r.Intn(40))
			if r.Intn(3) == 0 {
				s += pick(r, strPieces)
			}
			return s
		case 2: // a rune
			return string([]rune{rune(r.Intn(0x110000)), rune(r.Intn(0x3000))})
		case 3:
			b := make([]byte, 1+r.Intn(24))
			for i := range b {
				b[i] = byte(r.Intn(256))
				if r.Intn(2) == 0 {
					b[i] = byte(r.Intn(0x80))
				}
			}
			return string(b)
		}
		return g.str()
	}
	switch k := h.id; {
	case k < 256: // all strings of two bytes, over the ids
		var ss []string
		for b := 0; b < 256; b++ {
			ss = append(ss, string([]byte{byte(k), byte(b)}))
		}
		for i := 0; i < 256; i += 64 {
			h.marshalCase("enc", ss[i:i+64], items)
		}
	case k < 300: // the runs around U+2028 and the ends of the planes
		base := []int{0, 0x7f0, 0x800, 0x2000, 0x2020, 0xd7f0, 0xe000, 0xfff0, 0x10000, 0x10fff0, 0xffe0}[k%11]
		var ss []string
		for i := 0; i < 64; i++ {
			ss = append(ss, string(rune(base+i))+pick(r, []string{"", "a", "\xff"}))
		}
		h.marshalCase("enc", ss, items)
	default:
		switch r.Intn(8) {
		case 0:
			h.marshalCase("enc", map[string]int{gen(): 1, gen(): 2}, items)
		case 1:
			h.marshalCase("enc", GivenT{gen()}, items)
		case 2:
			h.marshalCase("enc", map[GivenT]int{{gen()}: 1}, items)
		case 3:
			h.marshalCase("enc", g.positions(reflect.ValueOf(NStr(gen())), 2), items)
		case 4:
			h.marshalCase("enc", []byte(gen()), append(items, one("RawByteSlice")))
		case 5:
			s := gen()
			a := reflect.New(reflect.ArrayOf(len(s), reflect.TypeOf(byte(0)))).Elem()
			reflect.Copy(a, reflect.ValueOf([]byte(s)))
			h.marshalCase("enc", a.Interface(), append(items, one("ByteArrayAsString")))
		default:
			s := gen()
			h.enc("str", s, items, marshal(s, items), func(w *jw) {
				w.raw(`,"s":`)
				w.bytes([]byte(s))
			})
		}
	}
}

// recursive: C22.
func (h *H) recursive(p *profile) {
	r := h.r
	g := h.newGen(p)
	g.budget = 300
	var v reflect.Value
	switch k := r.Intn(8); {
	case k < 4:
		v = g.value(pick(r, catRec), 4+r.Intn(5))
	case k == 4:
		v = g.value(g.typ(2), 6)
	case k == 5: // deep
		kind, d := r.Intn(8), r.Intn(120)
		if r.Intn(40) == 0 { // around the depth at which cycles are looked for
			kind, d = pick(r, []int{1, 5, 7, 7}), pick(r, []int{998, 999, 1000, 1001, 1002, 1050})
		}
		v = reflect.ValueOf(deepValue(kind, d))
	default:
		v = reflect.ValueOf(cyclicValue(r))
	}
	h.marshalCase("enc", g.positions(v, 1), someOpts(r, []string{"UnsortedMap", "NilMapEmpty", "NilSliceEmpty"}, 1))
}

func deepValue(kind, d int) interface{} {
	switch kind {
	case 0:
		var l *RList
		for i := 0; i < d; i++ {
			l = &RList{i, l}
		}
		return l
	case 1:
		s := RSl{}
		for i := 0; i < d; i++ {
			s = RSl{s}
		}
		return s
	case 2:
		m := RMap{}
		for i := 0; i < d; i++ {
			m = RMap{"k": m}
		}
		return m
	case 3:
		var i interface{} = 1
		for k := 0; k < d; k++ {
			i = []interface{}{i}
		}
		return i
	case 4:
		var i interface{} = "x"
		for k := 0; k < d; k++ {
			i = map[string]interface{}{"a": i}
		}
		return i
	case 5:
		var p *RPtrSl
		q := RPtrSl(&[]RPtrSl{})
		for k := 0; k < d; k++ {
			q = RPtrSl(&[]RPtrSl{q})
		}
		p = &q
		return p
	}
	if kind == 7 {
		var p RPtr
		for i := 0; i < d; i++ {
			q := p
			p = &q
		}
		return &p
	}
	k := RKids{}
	for i := 0; i < d; i++ {
		k = RKids{fmt.Sprint(i % 3), []RKids{k}}
	}
	return k
}

func cyclicValue(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0:
		l := &RList{V: 1}
		l.Next = l
		return l
	case 1:
		a, b := &RList{V: 1}, &RList{V: 2}
		a.Next, b.Next = b, a
		return &RList{3, a}
	case 2:
		s := RSl{nil, nil}
		s[1] = s
		return s
	case 3:
		m := RMap{}
		m["self"] = m
		return m
	case 4:
		s := make([]interface{}, 2)
		s[0] = s
		return s
	case 5:
		m := map[string]interface{}{"a": 1}
		m["m"] = map[string]interface{}{"x": m}
		return m
	case 6:
		var p RPtr
		p = &p
		return p
	case 7:
		k := &RKidsM{}
		k.I = k
		return k
	case 8:
		a := &RMutA{}
		a.B = &RMutB{A: []RMutA{{B: nil}}}
		a.B.A[0].B = a.B
		return *a
	case 9:
		x := &RAr{}
		x[1] = x
		return x
	case 10:
		e := &REmb{A: 1}
		e.REmb = &REmb{B: "x"}
		e.REmb.REmb = e
		// fields promoted through embedded pointers: not followed further
		return e
	}
	i := &RIf{}
	var p interface{} = i
	i.I = &p
	return []*RIf{i}
}

// optionCase: C23.
func (h *H) optionCase(p *profile) {
	r := h.r
	q := *p
	q.kinds = "smlaiysn"
	// composites that hold something for every option
	q.leaf = join(scalars[:3], types("", "", []byte{}, [2]byte{}, []byte{}, [3]byte{}, map[string]int{}, []int{}, time.Time{}, time.Time{}, time.Duration(0), time.Duration(0), json.Number(""), json.RawMessage{}, GivenJ{}, GivenT{}, map[string]int{}, map[string][]int{}, []string{}, 1.5), filter(catMeth, func(t reflect.Type) bool { return t.Implements(iC) }))
	g := h.newGen(&q)
	var v interface{}
	if r.Intn(3) > 0 {
		n := 2 + r.Intn(5)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fieldNames[i], Type: pick(r, q.leaf), Tag: reflect.StructTag(pick(r, []string{"", "", `json:"n<>&"`, `json:",string"`, `json:",omitempty"`}))})
		}
		v = g.value(reflect.StructOf(fs), 3).Interface()
	} else {
		v = g.topValue()
	}
	var items []optItem
	many := r.Intn(7)
	if r.Intn(10) == 0 {
		many = 8 + r.Intn(60)
	}
	for n := many; n > 0; n-- {
		it := optOf(r, pick(r, append([]string{"TimeLayout", "DurationFormat", "WithContext", "AllowList", "DenyList"}, allOpts...)), fieldNames[:4])
		if r.Intn(12) == 0 && (many < 7 || r.Intn(20) == 0) {
			switch it.n {
			case "TimeLayout":
				it.text = ""
			case "DurationFormat":
				it.i = pick(r, []int{-1, 6, 7, 100, 1 << 30})
			case "WithContext":
				it.i = 0
			}
		}
		items = append(items, it)
		if r.Intn(5) == 0 {
			items = append(items, one("nil"))
		}
	}
	if r.Intn(12) == 0 {
		items = append(items, pick(r, []optItem{{n: "TimeLayout"}, {n: "DurationFormat", i: 6}, {n: "DurationFormat", i: -1}, {n: "WithContext"}}))
		r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	if rv := reflect.ValueOf(v); !rv.IsValid() {
		v = 1
	}
	h.appendCase("opts", v, items)
}

// positionCase: C21.
func (h *H) positionCase(p *profile) {
	r := h.r
	if r.Intn(3) == 0 {
		h.addressableCase(p, r.Intn(3) == 0)
		return
	}
	q := *p
	ok := func(t reflect.Type) bool {
		return !mentions(t, func(t reflect.Type, _ reflect.StructTag) bool {
			return ptrMethods(t) || t == tSyncMap
		})
	}
	q.leaf = filter(join(p.leaf, catNamed, catNamed), ok)
	q.named = filter(p.named, ok)
	q.dyn = filter(p.dyn, ok)
	q.embed = filter(p.embed, ok)
	q.keys = filter(p.keys, ok)
	q.kinds = "slampinslampins"
	g := h.newGen(h.someBad(&q, 8))
	t := g.typ(r.Intn(3))
	if !ok(t) || (t.Kind() == reflect.Interface && t.NumMethod() > 0) {
		h.skip("pointer methods")
		return
	}
	v := g.value(t, 3)
	if !dynOK(v, ok, 0) {
		h.skip("pointer methods")
		return
	}
	items := optsFor(r, t, []string{"NilMapEmpty", "NilSliceEmpty", "DurationFormat", "TimeLayout", "NoHTMLEscaping", "RawByteSlice", "ByteArrayAsString", "UnixTime"}, 1)
	top := v.Interface()
	var ws []wrapped
	add := func(name, pre, suf string, x reflect.Value) {
		ws = append(ws, wrapped{pre, suf, x.Interface(), name})
	}
	ptr := reflect.New(t)
	ptr.Elem().Set(v)
	add("*", "", "", ptr)
	pp := reflect.New(ptr.Type())
	pp.Elem().Set(ptr)
	add("**", "", "", pp)
	s1 := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
	s1.Index(0).Set(v)
	if t.Kind() != reflect.Uint8 {
		add("[]", "[", "]", s1)
		a1 := reflect.New(reflect.ArrayOf(1, t))
		a1.Elem().Index(0).Set(v)
		add("[1]", "[", "]", a1.Elem())
		add("*[1]", "[", "]", a1)
	}
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	m.SetMapIndex(reflect.ValueOf("k"), v)
	add("map", `{"k":`, "}", m)
	add("interface", `[`, `]`, reflect.ValueOf([]interface{}{top}))
	add("*interface", "", "", reflect.ValueOf(&top))
	add("map interface", `{"k":`, "}", reflect.ValueOf(map[string]interface{}{"k": top}))
	f := func(n string, t reflect.Type) reflect.StructField { return reflect.StructField{Name: n, Type: t} }
	ti := reflect.TypeOf(0)
	st := func(name, pre, suf string, at int, fs ...reflect.StructField) {
		defer func() { recover() }()
		x := reflect.New(reflect.StructOf(fs))
		x.Elem().Field(at).Set(v)
		add(name, pre, suf, x.Elem())
		if r.Intn(3) == 0 {
			add("*"+name, pre, suf, x)
		}
	}
	st("alone", `{"A":`, `}`, 0, f("A", t))
	st("first", `{"A":`, `,"B":0}`, 0, f("A", t), f("B", ti))
	st("last", `{"A":0,"B":`, `}`, 1, f("A", ti), f("B", t))
	inner := reflect.New(reflect.StructOf([]reflect.StructField{f("B", t)}))
	inner.Elem().Field(0).Set(v)
	func() {
		defer func() { recover() }()
		x := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: inner.Type().Elem(), Anonymous: true}, f("Z", ti)}))
		x.Elem().Field(0).Set(inner.Elem())
		add("promoted", `{"B":`, `,"Z":0}`, x.Elem())
	}()
	func() {
		defer func() { recover() }()
		x := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: inner.Type(), Anonymous: true}}))
		x.Elem().Field(0).Set(inner)
		add("promoted*", `{"B":`, `}`, x.Elem())
	}()
	for _, it := range []reflect.Type{reflect.TypeOf(new(IFoo)).Elem()} {
		if t.Implements(it) {
			x := reflect.New(reflect.SliceOf(it)).Elem()
			x.Set(reflect.MakeSlice(reflect.SliceOf(it), 1, 1))
			x.Index(0).Set(v)
			add("IFoo", "[", "]", x)
			y := reflect.New(reflect.StructOf([]reflect.StructField{f("A", it)}))
			y.Elem().Field(0).Set(v)
			add("IFoo field", `{"A":`, "}", y.Elem())
		}
	}
	h.posCase(top, items, ws)
}

// addressableCase compares the positions where a value of a type that may
// have methods of pointer receivers is addressable, or (bare) those where it is not.
func (h *H) addressableCase(p *profile, bare bool) {
	r := h.r
	q := *p
	ok := func(t reflect.Type) bool {
		return !mentions(t, func(t reflect.Type, _ reflect.StructTag) bool { return t == tSyncMap })
	}
	q.leaf = filter(join(p.leaf, catMeth, catMeth), ok)
	q.named = filter(p.named, ok)
	q.dyn = filter(join(p.dyn, catMeth), ok)
	q.embed = filter(p.embed, ok)
	q.keys = filter(p.keys, ok)
	q.kinds = "slapinssas"
	g := h.newGen(h.someBad(&q, 8))
	t := g.typ(r.Intn(3))
	if !ok(t) || t.Kind() == reflect.Interface {
		h.skip("interface type")
		return
	}
	v := g.value(t, 3)
	if !dynOK(v, ok, 0) {
		h.skip("sync.Map")
		return
	}
	items := optsFor(r, t, []string{"NilMapEmpty", "NilSliceEmpty", "DurationFormat", "NoHTMLEscaping", "RawByteSlice", "ByteArrayAsString"}, 1)
	var ws []wrapped
	add := func(name, pre, suf string, x reflect.Value) {
		ws = append(ws, wrapped{pre, suf, x.Interface(), name})
	}
	str := reflect.TypeOf("")
	mapOf := func(v reflect.Value) reflect.Value {
		m := reflect.MakeMap(reflect.MapOf(str, v.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m
	}
	structOf := func(at int, v reflect.Value, fs ...reflect.StructField) (x reflect.Value) {
		x = reflect.New(reflect.StructOf(fs))
		x.Elem().Field(at).Set(v)
		return
	}
	listOf := func(v reflect.Value) reflect.Value {
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
		s.Index(0).Set(v)
		return s
	}
	arrayOf := func(v reflect.Value) reflect.Value {
		a := reflect.New(reflect.ArrayOf(1, v.Type()))
		a.Elem().Index(0).Set(v)
		return a
	}
	f := func(n string, t reflect.Type) reflect.StructField { return reflect.StructField{Name: n, Type: t} }
	ti := reflect.TypeOf(0)
	if bare {
		top := v.Interface()
		add("map", `{"k":`, "}", mapOf(v))
		add("interface", "[", "]", reflect.ValueOf([]interface{}{top}))
		add("*interface", "", "", reflect.ValueOf(&top))
		add("map interface", `{"k":`, "}", reflect.ValueOf(map[string]interface{}{"k": top}))
		if t.Kind() != reflect.Uint8 {
			add("[1]", "[", "]", arrayOf(v).Elem())
			add("map [1]", `{"k":[`, "]}", mapOf(arrayOf(v).Elem()))
		}
		add("first", `{"A":`, `,"B":0}`, structOf(0, v, f("A", t), f("B", ti)).Elem())
		add("last", `{"A":0,"B":`, `}`, structOf(1, v, f("A", ti), f("B", t)).Elem())
		add("map struct", `{"k":{"A":0,"B":`, `}}`, mapOf(structOf(1, v, f("A", ti), f("B", t)).Elem()))
		h.posCase(top, items, ws)
		return
	}
	ptr := reflect.New(t)
	ptr.Elem().Set(v)
	pp := reflect.New(ptr.Type())
	pp.Elem().Set(ptr)
	top := ptr.Interface()
	add("**", "", "", pp)
	if t.Kind() != reflect.Uint8 {
		add("[]", "[", "]", listOf(v))
		add("*[1]", "[", "]", arrayOf(v))
		add("[][1]", "[[", "]]", listOf(arrayOf(v).Elem()))
	}
	add("[]*", "[", "]", listOf(ptr))
	add("[1]*", "[", "]", arrayOf(ptr).Elem())
	add("map *", `{"k":`, "}", mapOf(ptr))
	add("interface *", "[", "]", reflect.ValueOf([]interface{}{top}))
	add("interface **", "[", "]", reflect.ValueOf([]interface{}{pp.Interface()}))
	add("map interface *", `{"k":`, "}", reflect.ValueOf(map[string]interface{}{"k": top}))
	add("*interface *", "", "", reflect.ValueOf(&top))
	add("field interface *", `{"A":`, "}", reflect.ValueOf(struct{ A interface{} }{top}))
	add("field *", `{"A":`, "}", structOf(0, ptr, f("A", ptr.Type())).Elem())
	add("last *", `{"A":0,"B":`, `}`, structOf(1, ptr, f("A", ti), f("B", ptr.Type())).Elem())
	add("*alone", `{"A":`, `}`, structOf(0, v, f("A", t)))
	add("*last", `{"A":0,"B":`, `}`, structOf(1, v, f("A", ti), f("B", t)))
	add("interface *last", `[{"A":0,"B":`, `}]`, reflect.ValueOf([]interface{}{structOf(1, v, f("A", ti), f("B", t)).Interface()}))
	add("map *last", `{"k":{"A":0,"B":`, `}}`, mapOf(structOf(1, v, f("A", ti), f("B", t))))
	func() {
		defer func() { recover() }()
		inner := structOf(0, v, f("B", t))
		x := structOf(0, inner, reflect.StructField{Name: "E", Type: inner.Type(), Anonymous: true})
		add("promoted*", `{"B":`, `}`, x.Elem())
	}()
	h.posCase(top, items, ws)
}

// wrapped is a value that holds another one, whose encoding is between pre and suf.
type wrapped struct {
	pre, suf string
	v        interface{}
	name     string
}

func (h *H) posCase(top interface{}, items []optItem, ws []wrapped) {
	n, okd := h.node(top, items)
	if !okd {
		return
	}
	base := guard(marshal(top, items))
	h.emit("pos", func(w *jw) {
		w.raw(`"ty":`)
		w.str(typeName(top))
		w.raw(`,"os":`)
		w.str(fmt.Sprint(items))
		w.raw(",")
		writeOpts(w, items)
		writeNode(w, n)
		w.raw(`,"g":`)
		base.write(w)
		w.raw(`,"w":[`)
		for i, x := range ws {
			if i > 0 {
				w.raw(",")
			}
			w.raw(`{"p":`)
			w.bytes([]byte(x.pre))
			w.raw(`,"s":`)
			w.bytes([]byte(x.suf))
			w.raw(`,"n":`)
			w.str(x.name)
			w.raw(`,"g":`)
			guard(marshal(x.v, items)).write(w)
			w.raw("}")
		}
		w.raw("]")
	})
}

// ptrMethods: methods with a pointer receiver that t itself lacks.
func ptrMethods(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
		return false
	}
	if special(t) != "" {
		return false
	}
	p := reflect.PtrTo(t)
	for _, i := range []reflect.Type{iJ, iT, iA, iC} {
		if p.Implements(i) && !t.Implements(i) {
			return true
		}
	}
	return false
}

var _ = bytes.Equal
