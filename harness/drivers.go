package main

// One driver per property: which inputs, and what is recorded.

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

func types(vs ...interface{}) (ts []reflect.Type) {
	for _, v := range vs {
		ts = append(ts, reflect.TypeOf(v))
	}
	return
}

func join(ls ...[]reflect.Type) (all []reflect.Type) {
	for _, l := range ls {
		all = append(all, l...)
	}
	return
}

func filter(l []reflect.Type, ok func(reflect.Type) bool) (r []reflect.Type) {
	for _, t := range l {
		if ok(t) {
			r = append(r, t)
		}
	}
	return
}

var (
	scalars = types(false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0), "", "")
	stdT    = []reflect.Type{tTime, tDur, tNum, tRaw}
	badT    = types(make(chan int), func() {}, complex64(0), complex128(0), map[float64]int{}, map[bool]int{}, map[[1]int]string{}, map[interface{}]int{})
	keyT    = types("", "", 0, int8(0), int64(0), uint8(0), uint64(0), uintptr(0))
)

// stdOK: encoding/json treats the type as jettison does.
func stdOK(t reflect.Type) bool {
	for _, u := range []reflect.Type{t, reflect.PtrTo(t)} {
		if u.Implements(iA) || u.Implements(iC) {
			return false
		}
	}
	return true
}

var (
	stdMeth = filter(join(catMeth, catMethIface, catByte), stdOK)
	stdKeys = filter(join(keyT, catKeys), stdOK)
	allKeys = join(keyT, catKeys)
)

// mentions reports whether t, or a type it is made of, satisfies f.
func mentions(t reflect.Type, f func(reflect.Type, reflect.StructTag) bool) bool {
	seen := map[reflect.Type]bool{}
	var walk func(reflect.Type) bool
	walk = func(t reflect.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t, "") {
			return true
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			return walk(t.Elem())
		case reflect.Map:
			return walk(t.Key()) || walk(t.Elem())
		case reflect.Struct:
			if special(t) != "" {
				return false
			}
			for i := 0; i < t.NumField(); i++ {
				if f(t, t.Field(i).Tag) || walk(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

var typeOKMemo = map[reflect.Type]bool{}

// stdTypeOK: nothing in t that encoding/json does not know.
func stdTypeOK(t reflect.Type) bool {
	ok, seen := typeOKMemo[t]
	if !seen {
		ok = !mentions(t, func(t reflect.Type, tag reflect.StructTag) bool {
			return !stdOK(t) || t == tSyncMap || hasOmitnil(tag)
		})
		typeOKMemo[t] = ok
	}
	return ok
}

func hasOmitnil(tag reflect.StructTag) bool {
	return containsOpt(tag.Get("json"), "omitnil")
}

func containsOpt(tag, o string) bool {
	for i := 0; i+len(o) <= len(tag); i++ {
		if tag[i:i+len(o)] == o {
			return true
		}
	}
	return false
}

// valueOK walks the value: every dynamic type must satisfy ok.
func dynOK(v reflect.Value, ok func(reflect.Type) bool, d int) bool {
	if d > 40 || !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return true
		}
		return ok(v.Elem().Type()) && dynOK(v.Elem(), ok, d+1)
	case reflect.Ptr:
		return v.IsNil() || dynOK(v.Elem(), ok, d+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !dynOK(v.Index(i), ok, d+1) {
				return false
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if !dynOK(k, ok, d+1) || !dynOK(v.MapIndex(k), ok, d+1) {
				return false
			}
		}
	case reflect.Struct:
		if special(v.Type()) != "" {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if !dynOK(v.Field(i), ok, d+1) {
				return false
			}
		}
	}
	return true
}

var stdTags = []string{"", ",omitempty", ",string", ",omitempty,string", ",bogus", "-"}
var jetTags = append([]string{",omitnil", ",omitnil,omitempty", ",omitnil,string"}, stdTags...)
var someNames = []string{"a", "b", "n<>&", "é", "A", "$%-/", "B", "x y", "-", "c\"d", "日本", "a.b"}

func stdProfile() *profile {
	return &profile{
		common: true,
		leaf:   join(scalars, stdT, stdT, filter(catNamed, stdTypeOK), stdMeth),
		named:  filter(join(catEmbed, catEmbed, catRec), stdTypeOK),
		keys:   stdKeys,
		kinds:  "slampinslampin",
		depth:  3,
		dyn:    join(scalars, stdT, filter(catNamed, stdTypeOK), stdMeth, types([]interface{}{}, map[string]interface{}{}, [1]*int{}, struct{ M map[string]int }{})),
		tags:   stdTags, names: someNames, nilp: 0.2,
		embed: filter(catEmbed, stdTypeOK),
	}
}

// newGen returns a generator for one case.
func (h *H) newGen(p *profile) *gen { return &gen{r: h.r, p: p, budget: 60} }

// topValue draws a type and a value of it, sometimes behind a pointer.
func (g *gen) topValue() interface{} {
	t := g.typ(1 + g.r.Intn(g.p.depth))
	v := g.value(t, g.p.depth)
	if g.r.Intn(3) == 0 {
		p := reflect.New(t)
		p.Elem().Set(v)
		return p.Interface()
	}
	return v.Interface()
}

// fullProfile: everything jettison knows.
func fullProfile() *profile {
	return &profile{
		common: true,
		leaf:   join(scalars, stdT, stdT, catNamed, catMeth, catMethIface, catByte, catOmit),
		named:  join(catEmbed, catEmbed, catRec, catIface),
		keys:   allKeys,
		kinds:  "slampinyslampin",
		depth:  3,
		dyn:    join(scalars, stdT, catNamed, catMeth, catMethIface, catMethIface, types([]interface{}{}, map[string]interface{}{}, [1]*int{}, struct{ M map[string]int }{})),
		tags:   jetTags, names: someNames, nilp: 0.2,
		embed: catEmbed,
	}
}

var cleanJSON = filterStr(goodJSON, utf8.ValidString)

func filterStr(l []string, ok func(string) bool) (r []string) {
	for _, s := range l {
		if ok(s) {
			r = append(r, s)
		}
	}
	return
}

func without(l []string, drop ...string) []string {
	return filterStr(l, func(s string) bool {
		for _, d := range drop {
			if s == d {
				return false
			}
		}
		return true
	})
}

// someBad makes some cases contain what cannot be encoded.
func (h *H) someBad(p *profile, every int) *profile {
	if h.r.Intn(every) != 0 {
		return p
	}
	q := *p
	q.bad = 0.15
	methRate = 10
	q.leaf = join(q.leaf, badT, badT)
	q.dyn = join(q.dyn, badT)
	q.keys = join(q.keys, catBadKeys)
	return &q
}

// must drops the cases that cannot be described and makes the call.
func (h *H) marshalCase(kind string, v interface{}, items []optItem) bool {
	return h.enc(kind, v, items, marshal(v, items), nil)
}

// place puts a copy of v where it is addressable, or where it is not.
func (g *gen) place(v reflect.Value) reflect.Value {
	t := v.Type()
	p := reflect.New(t)
	p.Elem().Set(v)
	switch g.r.Intn(8) {
	case 0:
		return p
	case 1:
		s := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
		s.Index(0).Set(v)
		return s
	case 2, 3:
		s := reflect.New(reflect.ArrayOf(1, t))
		s.Elem().Index(0).Set(v)
		if g.r.Intn(2) == 0 {
			return s.Elem()
		}
		return s
	case 4, 5:
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f"`}}))
		s.Elem().Field(0).Set(v)
		if g.r.Intn(2) == 0 {
			return s.Elem()
		}
		return s
	case 6:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m
	}
	return v
}

// inPosition puts a value of type t somewhere in a larger value and returns
// that value. The generator g fills the rest.
func (g *gen) inPosition(v reflect.Value) reflect.Value {
	t := v.Type()
	r := g.r
	switch r.Intn(10) {
	case 9: // a sync.Map, unless encoding/json is to have the value too
		if *flagProp == "C01" || strings.HasPrefix(*flagProp, "bigstd") {
			return v
		}
		m := new(sync.Map)
		m.Store(pick(r, []interface{}{"k", 7, "é<", NStr("n")}), v.Interface())
		if r.Intn(3) == 0 {
			m.Store("kk", pick(r, []interface{}{1, "x", nil, []int{2}}))
		}
		return reflect.ValueOf(m)
	case 0: // pointer
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	case 1: // slice
		s := reflect.MakeSlice(reflect.SliceOf(t), 1+r.Intn(2), 3)
		for i := 0; i < s.Len(); i++ {
			s.Index(i).Set(v)
		}
		return s
	case 2: // array
		a := reflect.New(reflect.ArrayOf(1+r.Intn(2), t)).Elem()
		for i := 0; i < a.Len(); i++ {
			a.Index(i).Set(v)
		}
		return a
	case 3: // map value
		m := reflect.MakeMap(reflect.MapOf(pick(r, types("", 0, uint8(0))), t))
		k := g.value(m.Type().Key(), 0)
		m.SetMapIndex(k, v)
		return m
	case 4: // field
		n := 1 + r.Intn(3)
		at := r.Intn(n)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fieldNames[i], Type: t}
			if i != at {
				f.Type = pick(r, scalars)
			}
			fs = append(fs, f)
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		s.Field(at).Set(v)
		return s
	case 5: // interface element
		s := []interface{}{v.Interface()}
		return reflect.ValueOf(s)
	case 6: // interface field
		s := struct {
			X interface{}
			Y int
		}{v.Interface(), 1}
		return reflect.ValueOf(s)
	case 7:
		return reflect.ValueOf(map[string]interface{}{"k": v.Interface()})
	}
	return v
}

func (g *gen) positions(v reflect.Value, n int) interface{} {
	for k := g.r.Intn(n + 1); k > 0; k-- {
		v = g.inPosition(v)
	}
	return v.Interface()
}

// GivenJ, GivenT, GivenA return what they hold.
type GivenJ struct{ S []byte }
type GivenT struct{ S string }
type GivenA struct{ S string }

// GivenR and GivenRT return their own memory.
type GivenR struct{ S []byte }
type GivenRT struct{ S []byte }

func (g GivenR) MarshalJSON() ([]byte, error)  { return g.S, nil }
func (g GivenRT) MarshalText() ([]byte, error) { return g.S, nil }

func (g GivenJ) MarshalJSON() ([]byte, error)        { return append([]byte(nil), g.S...), nil }
func (g GivenT) MarshalText() ([]byte, error)        { return []byte(g.S), nil }
func (g GivenA) AppendJSON(b []byte) ([]byte, error) { return append(b, g.S...), nil }

var (
	tGivenJ = reflect.TypeOf(GivenJ{})
	tGivenT = reflect.TypeOf(GivenT{})
	tGivenA = reflect.TypeOf(GivenA{})
)

func init() {
	p := stdProfile()
	drivers["C01"] = func(h *H) {
		q := h.someBad(p, 5)
		g := h.newGen(q)
		v := g.topValue()
		if !dynOK(reflect.ValueOf(v), stdTypeOK, 0) || v != nil && !stdTypeOK(reflect.TypeOf(v)) {
			h.skip("not encoding/json's")
			return
		}
		h.enc("std", v, nil, marshal(v, nil), func(w *jw) {
			r := guard(func() ([]byte, error) { return json.Marshal(v) })
			w.raw(`,"std":`)
			r.write(w)
		})
	}

	full := fullProfile()
	drivers["C02"] = func(h *H) {
		goodMeth = cleanJSON
		if h.r.Intn(16) == 0 {
			// Texts that come from the layout and from the zone.
			tm := h.newGen(full).time().In(time.FixedZone(pick(h.r, zoneNames), pick(h.r, zones)))
			v := pick(h.r, []interface{}{tm, &tm, []time.Time{tm}, map[string]time.Time{"k": tm}, struct {
				T time.Time `json:",string"`
			}{tm}, []interface{}{tm}})
			o := []optItem{optOf(h.r, "TimeLayout", nil)}
			h.marshalCase("wf", v, append(o, someOpts(h.r, []string{"NoHTMLEscaping", "NoCompact", "UnsortedMap", "TimeLayout", "UnixTime"}, 2)...))
			return
		}
		q := *h.someBad(full, 4)
		q.rawGood = cleanJSON
		g := h.newGen(&q)
		v := g.topValue()
		h.marshalCase("wf", v, optsFor(h.r, v, without(allOpts, "NoStringEscaping", "NoUTF8Coercion", "NoNumberValidation", "NoCompact"), 4))
	}

	c04 := &profile{leaf: join(scalars, scalars, types((*int)(nil), (*string)(nil), []int{})), named: catEmbed, keys: keyT, kinds: "ssspnli", depth: 3,
		dyn: join(scalars, catEmbed), tags: jetTags, names: someNames, nilp: 0.2, embed: catEmbed}
	drivers["C04"] = func(h *H) {
		g := h.newGen(c04)
		var v reflect.Value
		if h.r.Intn(3) > 0 {
			v = g.value(pick(h.r, catEmbed), 6)
		} else {
			v = g.value(g.embedTree(3), 6)
		}
		h.marshalCase("enc", g.positions(v, 1), someOpts(h.r, []string{"NoHTMLEscaping", "UnsortedMap"}, 1))
	}

	c05t := join(scalars, commonT, stdT, catNamed, catTwins, catTwins, catOmit, catOmit, catMeth, catMethIface, catIface, types([]int{}, map[string]int{}, [0]int{}, [1]int{}, (*int)(nil), (**int)(nil), (*[]int)(nil), (*map[string]int)(nil), new(interface{}), []interface{}{}, struct{}{}, struct{ P *int }{}, (*OmJP)(nil), (*OmJV)(nil), (*time.Time)(nil), (*GivenJ)(nil), []byte{}, [2]bool{}, func() {}, make(chan int)))
	c05 := &profile{leaf: c05t, keys: keyT, kinds: "lmap", depth: 1, dyn: c05t, nilp: 0.45, zero: 0.35, embed: catEmbed}
	c05tags := []string{",OmitEmpty", ",omitempty ", ", omitempty", ",omitzero", ",OMITNIL", ",omit", ",omitemptyomitnil", ",omitempty", ",omitempty", ",omitnil", ",omitnil", ",omitempty,omitnil", "", ",omitempty,string", ",omitnil,string", "x,omitempty", "y,omitnil"}
	drivers["C05"] = func(h *H) {
		g := h.newGen(c05)
		n := 1 + h.r.Intn(5)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			tag := pick(h.r, c05tags)
			f := reflect.StructField{Name: fieldNames[i], Type: pick(h.r, c05t)}
			if k := f.Type.Kind(); (k == reflect.Func || k == reflect.Chan) && !hasMethods(f.Type) && h.r.Intn(6) > 0 {
				f.Type = reflect.TypeOf((*int)(nil))
			}
			if h.r.Intn(8) == 0 {
				f.Type = g.typ(1)
			}
			f.Tag = tagText(h.r, tag)
			fs = append(fs, f)
		}
		h.marshalCase("enc", g.positions(g.value(reflect.StructOf(fs), 3), 1), optsFor(h.r, reflect.StructOf(fs), []string{"NilMapEmpty", "NilSliceEmpty", "DurationFormat", "UnixTime", "NoCompact"}, 1))
	}

	c06t := join(scalars, scalars, stdT, stdT, catNamed, catTwins, types((*int)(nil), (*string)(nil), (*bool)(nil), (*float64)(nil), (*uint8)(nil), (**int)(nil), []int{}, map[string]int{}, new(interface{}), (*time.Duration)(nil), (*json.Number)(nil), (*time.Time)(nil), NStr(""), (*NStr)(nil), [2]int{}, struct{ A int }{}, struct {
		A int `json:",string"`
	}{}, []string{}, (*[]int)(nil), NPtr(nil), NPDur(nil), NPNum(nil), NPTime(nil), EDur{}, ENum{}), catMeth[:60], catMethIface)
	c06 := &profile{leaf: c06t, keys: keyT, kinds: "lmap", depth: 1, dyn: join(scalars, stdT), nilp: 0.25, zero: 0.1, strs: strPieces}
	drivers["C06"] = func(h *H) {
		g := h.newGen(c06)
		n := 1 + h.r.Intn(4)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fieldNames[i], Type: pick(h.r, c06t),
				Tag: tagText(h.r, pick(h.r, []string{",string", ",string", ",string", ",string,omitempty", ",omitnil,string", "n,string", ",strin", "", ",String", ",STRING", ",string ", ", string", ",quoted"}))})
		}
		h.marshalCase("enc", g.positions(g.value(reflect.StructOf(fs), 3), 1), optsFor(h.r, reflect.StructOf(fs), []string{"DurationFormat", "NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping", "NoNumberValidation", "UnixTime"}, 2))
	}

	c07 := &profile{leaf: join(scalars, stdT, catNamed, []reflect.Type{tGivenT}), named: catMeth, keys: join(allKeys, []reflect.Type{tGivenT, tTime, tDur, tNum, reflect.TypeOf((*time.Time)(nil)), reflect.TypeOf((*KStruct)(nil)), reflect.TypeOf((*GivenT)(nil)), reflect.TypeOf((*MStrPT)(nil)), reflect.TypeOf((*MIntPT)(nil)), reflect.TypeOf(new(IT)).Elem(), reflect.TypeOf(new(IFooT)).Elem()}),
		common: true,
		kinds:  "mmmmslpai", depth: 3, dyn: join(scalars, catNamed, catMethIface, []reflect.Type{tGivenT, reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[int]string{})}), nilp: 0.15, zero: 0.05, maxLen: 5}
	c07opts := []string{"UnsortedMap", "NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping", "TimeLayout", "UnixTime", "DurationFormat", "NilMapEmpty", "NoCompact", "NoNumberValidation", "RawByteSlice"}
	drivers["C07"] = func(h *H) {
		q := *c07
		if h.r.Intn(12) == 0 {
			q.bad = 0.1
			methRate = 6
			q.keys = join(q.keys, catBadKeys)
		}
		if h.r.Intn(6) == 0 {
			q.maxLen = 40
		}
		g := h.newGen(&q)
		g.budget = 200
		t := reflect.MapOf(pick(h.r, q.keys), g.typ(1+h.r.Intn(2)))
		items := optsFor(h.r, t, c07opts, 2)
		if q.maxLen > 10 { // matching many unordered members is expensive
			items = filterItems(items, "UnsortedMap")
		}
		h.marshalCase("enc", g.positions(g.value(t, 3), 1), items)
	}

	c08 := &profile{common: true, leaf: join(scalars, stdT, catNamed), keys: join(c07.keys, c07.keys, badT[3:4], catBadKeys[:2]), kinds: "smlpyi", depth: 2,
		dyn: join(scalars, stdT, catNamed, catMeth, catMethIface, []reflect.Type{tGivenT, tSyncMap, reflect.PtrTo(tSyncMap)}, types(map[string]interface{}{}, []interface{}{}, [1]*int{}, struct{ M map[string]int }{})), nilp: 0.15, maxLen: 5}
	drivers["C08"] = func(h *H) {
		q := *c08
		if h.r.Intn(3) > 0 {
			q.keys = c07.keys
		}
		if h.r.Intn(8) == 0 {
			methRate = 6
			q.bad = 0.1
		}
		g := h.newGen(&q)
		v := reflect.New(tSyncMap)
		g.fill(v.Elem(), 3)
		if h.r.Intn(10) == 0 {
			v.Interface().(*sync.Map).Store(nil, 1)
		}
		if h.r.Intn(5) == 0 { // deleted and overwritten entries
			m := v.Interface().(*sync.Map)
			m.Store("gone", 1)
			m.Load("gone")
			m.Delete("gone")
			m.Store("over", 1)
			m.Store("over", g.value(pick(h.r, scalars), 1).Interface())
		}
		var x reflect.Value = v
		switch h.r.Intn(4) {
		case 0:
			x = v.Elem()
		case 1:
			x = reflect.ValueOf(&struct {
				A int
				M *sync.Map
				N *sync.Map
			}{1, v.Interface().(*sync.Map), nil})
		case 2:
			x = reflect.ValueOf(map[string]interface{}{"a": v.Interface(), "b": []*sync.Map{v.Interface().(*sync.Map)}})
		}
		h.marshalCase("enc", x.Interface(), someOpts(h.r, c07opts, 2))
	}

	methTypes := join(catMeth, catMeth, catMethIface, catByte, catOmit, types(GivenJ{}, GivenT{}, GivenA{}))
	c09 := &profile{leaf: join(methTypes, methTypes, scalars, catEmbM), named: join(catIface, catEmbed[:6], catEmbM), keys: keyT, kinds: "slampiy", depth: 3, dyn: methTypes, nilp: 0.2, maxLen: 3, tags: []string{"", ",omitempty", ",omitnil", ",string"}, embed: filter(join(catMeth, catIface), isStructOrIface)}
	drivers["C09"] = func(h *H) {
		g := h.newGen(c09)
		if h.r.Intn(6) == 0 {
			methRate = 8
		}
		var v reflect.Value
		switch h.r.Intn(4) {
		case 0:
			v = g.value(g.typ(3), 3)
		case 1:
			v = g.value(reflect.PtrTo(pick(h.r, methTypes)), 3)
		default:
			v = g.value(pick(h.r, methTypes), 3)
		}
		if h.r.Intn(6) == 0 {
			// One type, addressable and not, turn by turn: what was built for
			// one of the calls must not be used by the others.
			var vs []interface{}
			for n := 2 + h.r.Intn(5); n > 0; n-- {
				vs = append(vs, g.place(v).Interface())
			}
			h.many(vs, someOpts(h.r, []string{"WithContext", "UnsortedMap", "NilMapEmpty"}, 1), true)
			return
		}
		h.marshalCase("strict", g.positions(v, 3), optsFor(h.r, v.Type(), []string{"WithContext", "WithContext", "UnsortedMap", "NilMapEmpty", "ByteArrayAsString", "RawByteSlice", "NoCompact"}, 2))
	}

	drivers["C10"] = func(h *H) {
		r := h.r
		g := h.newGen(full)
		var v reflect.Value
		c10opts := []string{"NoCompact", "NoHTMLEscaping", "NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping", "NoNumberValidation", "RawByteSlice"}
		if r.Intn(8) == 0 {
			// What methods return may be memory they use again: it is only read.
			b := []byte(h.jsonText())
			if r.Intn(4) == 0 {
				b = []byte(" [ 1 ,\n\ttrue , { } ] ")
			}
			b = append(make([]byte, 0, len(b)+r.Intn(20)), b...)
			l := []interface{}{GivenR{b}, GivenRT{b}, json.RawMessage(b), &GivenR{b}, map[string]interface{}{"k": GivenR{b}}, GivenR{b[:len(b):len(b)]}}
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			var vs []interface{}
			for n := 2 + r.Intn(4); n > 0; n-- {
				vs = append(vs, pick(r, l))
			}
			if r.Intn(2) == 0 {
				vs = append(vs, vs)
			}
			h.many(vs, someOpts(r, c10opts, 2), true)
			return
		}
		switch r.Intn(6) {
		case 0, 1:
			v = reflect.ValueOf(GivenJ{[]byte(h.jsonText())})
		case 2, 3:
			v = reflect.ValueOf(json.RawMessage(h.jsonText()))
		case 4:
			v = reflect.ValueOf(GivenT{g.str()})
		default:
			methRate = uint32(r.Intn(2) * 10)
			v = g.value(pick(r, filter(methTypes, func(t reflect.Type) bool { return t.Implements(iJ) || t.Implements(iT) })), 2)
		}
		h.marshalCase("strict", g.positions(v, 2), someOpts(r, c10opts, 2))
	}

	c11 := fullProfile()
	c11.nilp, c11.zero = 0.6, 0.2
	c11.kinds = "lmapislmapsy"
	c11.leaf = join(scalars, stdT, catNamed, types([]byte{}, []int{}, map[string]int{}, (*int)(nil), (***int)(nil), []NU8{}, [0]int{}, [0]byte{}))
	drivers["C11"] = func(h *H) {
		g := h.newGen(c11)
		v := g.topValue()
		h.marshalCase("enc", v, optsFor(h.r, v, []string{"NilMapEmpty", "NilSliceEmpty", "NilMapEmpty", "NilSliceEmpty", "RawByteSlice", "ByteArrayAsString", "UnsortedMap"}, 3))
	}

	bt := types([]byte{}, []NU8{}, NBytes{}, NBytes2{}, NByAr{}, NByAr2{}, [1]byte{}, [7]byte{}, [64]byte{}, [0]byte{}, [3]NU8{}, []MU8VJ{}, []MU8PT{}, [2]MU8PJ{}, [2]MU8VT{}, []MU8PJ{}, []MU8VT{}, [1]MU8VJ{}, []MU8VA{}, []MU8PC{}, [2]MU8PA{}, [1]MU8VC{}, []MU8PA{}, MByVJ{}, MByAVT{}, MByPA{}, [5]int8{}, []int8{}, json.RawMessage{})
	drivers["C12"] = func(h *H) {
		r := h.r
		g := h.newGen(&profile{leaf: bt, nilp: 0.08})
		t := pick(r, bt)
		v := reflect.New(t).Elem()
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && t != tRaw && !hasMethods(t.Elem()) {
			n := r.Intn(70)
			if r.Intn(12) == 0 {
				n = pick(r, []int{255, 256, 257, 511, 512, 1023, 1024, 1025, 2046, 3070, 3071, 3072, 3073, 4095, 4096, 4097, 5000})
			}
			if h.id < 260 {
				n = h.id
			}
			if r.Intn(15) > 0 {
				v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
			}
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetUint(uint64(r.Intn(256)))
			}
		} else {
			if r.Intn(3) == 0 {
				for i := 0; t.Kind() == reflect.Array && t.Elem().Kind() == reflect.Uint8 && i < t.Len(); i++ {
					v.Index(i).SetUint(uint64(r.Intn(256)))
				}
			} else {
				g.fill(v, 1)
			}
		}
		items := someOpts(r, []string{"RawByteSlice", "ByteArrayAsString", "NoHTMLEscaping", "NoUTF8Coercion", "NilSliceEmpty"}, 2)
		h.appendCase("appendenc", g.positions(v, 1), items)
	}

	c13t := join(scalars[1:14], types(json.Number(""), json.Number(""), NI8(0), NI64(0), NU64(0), NF32(0), NF64(0), NNum(""), NUptr(0)))
	drivers["C13"] = func(h *H) {
		r := h.r
		g := h.newGen(&profile{leaf: c13t, bad: 0})
		items := someOpts(r, []string{"NoNumberValidation", "NoNumberValidation", "UnsortedMap", "NoStringEscaping"}, 1)
		t := pick(r, c13t)
		if t == tNum {
			v := reflect.ValueOf(json.Number(h.numberText()))
			h.marshalCase("strict", g.positions(v, 2), items)
			return
		}
		if r.Intn(8) == 0 {
			g.p.bad = 0.5
			h.marshalCase("strict", g.positions(g.value(t, 1), 1), items)
			return
		}
		s := reflect.MakeSlice(reflect.SliceOf(t), 24, 24)
		if t.Kind() == reflect.Uint8 {
			s = reflect.New(reflect.ArrayOf(24, t)).Elem()
		}
		for i := 0; i < s.Len(); i++ {
			g.fill(s.Index(i), 1)
		}
		switch {
		case r.Intn(4) == 0:
			h.marshalCase("strict", g.positions(s.Index(0), 2), items)
		case t.Kind() != reflect.Float32 && t.Kind() != reflect.Float64 && r.Intn(4) == 0: // as map keys
			m := reflect.MakeMap(reflect.MapOf(t, reflect.TypeOf(0)))
			for i := 0; i < s.Len(); i++ {
				m.SetMapIndex(s.Index(i), reflect.ValueOf(i))
			}
			h.marshalCase("strict", m.Interface(), filterItems(items, "UnsortedMap"))
		default:
			h.marshalCase("strict", s.Interface(), items)
		}
	}

	drivers["C14"] = func(h *H) {
		r := h.r
		q := &profile{leaf: types(time.Time{}), nilp: 0.1}
		if r.Intn(5) == 0 {
			q.bad = 0.3
		}
		g := h.newGen(q)
		items := someOpts(r, []string{"TimeLayout", "TimeLayout", "UnixTime", "NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion"}, 2)
		var v reflect.Value
		switch r.Intn(4) {
		case 0:
			ts := make([]time.Time, 8)
			for i := range ts {
				ts[i] = g.time()
			}
			v = reflect.ValueOf(ts)
		case 1:
			m := map[time.Time]int{}
			for i := 0; i < 3; i++ {
				m[g.time()] = i
			}
			v = reflect.ValueOf(m)
		case 2:
			v = g.value(reflect.TypeOf(struct {
				T  time.Time
				P  *time.Time
				O  time.Time  `json:",omitempty"`
				Q  *time.Time `json:",omitempty"`
				S  time.Time  `json:",string"`
				N  NTime
				PP **time.Time
			}{}), 2)
		default:
			v = reflect.ValueOf(g.time())
		}
		h.marshalCase("enc", g.positions(v, 2), items)
	}

	drivers["C15"] = func(h *H) {
		r := h.r
		g := h.newGen(&profile{leaf: types(time.Duration(0)), nilp: 0.1})
		items := someOpts(r, []string{"DurationFormat", "DurationFormat", "UnixTime", "NoStringEscaping"}, 2)
		if r.Intn(3) > 0 {
			items = append(items, optOf(r, "DurationFormat", nil))
		}
		var v reflect.Value
		switch r.Intn(4) {
		case 0:
			ds := make([]time.Duration, 16)
			for i := range ds {
				ds[i] = g.duration()
			}
			v = reflect.ValueOf(ds)
		case 1:
			m := map[time.Duration]int{}
			for i := 0; i < 3; i++ {
				m[g.duration()] = i
			}
			v = reflect.ValueOf(m)
		case 2:
			v = g.value(reflect.TypeOf(struct {
				D  time.Duration
				P  *time.Duration
				O  time.Duration  `json:",omitempty"`
				S  time.Duration  `json:",string"`
				SP *time.Duration `json:",string"`
				N  NDur
				I  interface{}
			}{}), 2)
		default:
			v = reflect.ValueOf(g.duration())
		}
		h.marshalCase("enc", g.positions(v, 2), items)
	}

	drivers["C16"] = func(h *H) {
		r := h.r
		g := h.newGen(c04)
		var v reflect.Value
		if r.Intn(2) == 0 {
			v = g.value(pick(r, catEmbed), 6)
		} else {
			q := *c04
			q.kinds = "ssmssyli"
			q.keys = types("", 0)
			q.strs = []string{"A", "B", "a", "x", "C"}
			g.p = &q
			v = g.value(g.structType(3), 4)
		}
		names := append([]string{"", "A", "a", "B", "\\u003c", "n\\u003c\\u003e\\u0026", "E", "\"A\""}, someNames...)
		names = append(names, fieldJSONNames(v.Type())...)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		if r.Intn(3) == 0 { // names that are like those of members
			for i := range names {
				if r.Intn(2) == 0 {
					names[i] = almost(r, names[i], pick(r, names))
				}
			}
		}
		var items []optItem
		for n := 1 + r.Intn(2); n > 0; n-- {
			items = append(items, optOf(r, pick(r, []string{"AllowList", "DenyList"}), names[:r.Intn(len(names)+1)]))
		}
		if r.Intn(4) == 0 {
			items = append(items, someOpts(r, []string{"NoHTMLEscaping", "UnsortedMap", "NoStringEscaping"}, 1)...)
		}
		x := g.positions(v, 1)
		if len(items) == 1 || r.Intn(2) == 0 {
			h.marshalCase("enc", x, items)
		} else {
			// The same options again, without the other ones.
			keepOptions()
			defer func() { oldOptions = false }()
			h.marshalCase("enc", x, items)
			h.marshalCase("enc", x, items[:1])
			h.marshalCase("enc", x, items[1:])
			h.marshalCase("enc", x, items)
		}
	}

	drivers["C17"] = func(h *H) {
		q := h.someBad(full, 4)
		g := h.newGen(q)
		v := g.topValue()
		h.appendCase("append", v, optsFor(h.r, v, allOpts, 2))
	}

	c18 := fullProfile()
	c18.leaf = join(c18.leaf, badT, badT, badT)
	c18.dyn = join(c18.dyn, badT, badT)
	c18.keys = join(c18.keys, catBadKeys)
	c18.bad = 0.1
	drivers["C18"] = func(h *H) {
		methRate = 10
		g := h.newGen(c18)
		var v interface{}
		if h.r.Intn(3) == 0 {
			v = g.positions(g.value(pick(h.r, badT), 1), 3)
		} else {
			v = g.topValue()
		}
		var items []optItem
		if h.r.Intn(5) > 1 {
			items = optsFor(h.r, v, append([]string{"AllowList", "DenyList"}, allOpts...), 2)
			for i := range items {
				if items[i].n == "AllowList" || items[i].n == "DenyList" {
					items[i] = optOf(h.r, items[i].n, fieldNames[:5])
				}
			}
		}
		h.marshalCase("fails", v, items)
	}

	c22 := &profile{leaf: scalars, named: catRec, keys: keyT, kinds: "nnslmpa", depth: 3, dyn: join(scalars, catRec), nilp: 0.3, embed: catEmbed}
	drivers["C22"] = func(h *H) { h.recursive(c22) }

	drivers["C23"] = func(h *H) { h.optionCase(full) }
	drivers["C21"] = func(h *H) { h.positionCase(full) }
	drivers["C03"] = func(h *H) { h.stringCase() }
}

func isStructOrIface(t reflect.Type) bool {
	return t.Kind() == reflect.Struct || t.Kind() == reflect.Interface
}

func filterItems(items []optItem, drop string) (r []optItem) {
	for _, it := range items {
		if it.n != drop {
			r = append(r, it)
		}
	}
	return
}

// fieldJSONNames lists names that members of t may have.
func fieldJSONNames(t reflect.Type) (ns []string) {
	mentions(t, func(u reflect.Type, tag reflect.StructTag) bool {
		if u.Kind() == reflect.Struct {
			for i := 0; i < u.NumField(); i++ {
				n := u.Field(i).Tag.Get("json")
				if c := strings.IndexByte(n, ','); c >= 0 {
					n = n[:c]
				}
				if n == "" {
					n = u.Field(i).Name
				}
				ns = append(ns, n)
			}
		}
		return false
	})
	return
}

// almost returns a name that is not n, but has much of it.
func almost(r *rand.Rand, n, m string) string {
	switch r.Intn(16) {
	case 0:
		return n + "," + m
	case 1:
		return n + "."
	case 2:
		return "." + n
	case 3:
		return n + " "
	case 4:
		return " " + n
	case 5:
		return strings.ToLower(n)
	case 6:
		return strings.ToUpper(n)
	case 7:
		return strconv.Quote(n)
	case 8:
		return n + pick(r, []string{"*", "?", ".*", "$", "%", "/", "|", ";", ":", "=", "-", "_"}) + m
	case 9:
		return pick(r, []string{"*", "?", ".*", "^", "-", "!", "_", "%"}) + n
	case 10:
		return n + n
	case 11:
		if len(n) > 1 {
			return n[:len(n)-1]
		}
	case 12:
		if len(n) > 1 {
			return n[1:]
		}
	case 13:
		return n + "," + pick(r, []string{"omitempty", "string", "omitnil", ""})
	case 14:
		return n + "\x00"
	}
	return pick(r, []string{"*", ".", "", "\x00", "a,b,A,B", n + "." + m})
}
