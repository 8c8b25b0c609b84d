package main

// Random types and values.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"
)

// A profile steers the generator.
type profile struct {
	leaf    []reflect.Type // leaf types (repeat for weight)
	named   []reflect.Type // declared composite types to use as they are
	keys    []reflect.Type // map key types
	kinds   string         // composite kinds: s struct, l slice, a array, m map, p pointer, i interface, y sync.Map
	depth   int
	dyn     []reflect.Type // dynamic types for interfaces
	bad     float64        // probability of values that are errors (NaN, invalid numbers, ...)
	tags    []string       // tag suffixes for random structs
	names   []string       // tag names for random structs
	strs    []string       // extra strings
	strOnly bool
	common  bool     // also types that are used often
	rawGood []string // valid JSON texts for json.RawMessage
	nilp    float64  // probability of nil
	zero    float64  // probability of a zero value
	maxLen  int
	embed   []reflect.Type // structs that random structs embed
}

type gen struct {
	r      *rand.Rand
	p      *profile
	budget int
}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

// typ returns a random type.
func (g *gen) typ(depth int) reflect.Type {
	p := g.p
	if depth <= 0 || len(p.kinds) == 0 || g.r.Float64() < 0.15 {
		if len(p.named) > 0 && g.r.Float64() < 0.4 {
			return pick(g.r, p.named)
		}
		return pick(g.r, p.leaf)
	}
	switch p.kinds[g.r.Intn(len(p.kinds))] {
	case 's':
		return g.structType(depth)
	case 'l':
		return reflect.SliceOf(g.typ(depth - 1))
	case 'a':
		return reflect.ArrayOf(pick(g.r, []int{0, 1, 1, 2, 3}), g.typ(depth-1))
	case 'm':
		return reflect.MapOf(pick(g.r, p.keys), g.typ(depth-1))
	case 'p':
		return reflect.PtrTo(g.typ(depth - 1))
	case 'i':
		return tIface
	case 'y':
		return tSyncMap
	case 'n':
		if len(p.named) > 0 {
			return pick(g.r, p.named)
		}
	}
	if p.common && g.r.Intn(8) == 0 {
		return pick(g.r, commonT)
	}
	return pick(g.r, p.leaf)
}

// commonT are types that are used often, and those that encoding/json decodes
// into: code may have short cuts for them.
var commonT = types([]interface{}{}, map[string]interface{}{}, []interface{}{}, map[string]interface{}{}, []string{}, []string{}, map[string]string{}, []int{}, map[string]int{}, map[int]string{}, []byte{}, [][]byte{}, []float64{},
	[]bool{}, []int64{}, []uint64{}, []float32{}, [4]byte{}, [2]string{}, []map[string]interface{}{}, map[string][]string{}, map[string]map[string]string{}, map[string]bool{}, map[string]float64{}, map[string][]interface{}{}, map[int64]int64{}, map[uint8]string{},
	[][]string{}, [][]int{}, [][]interface{}{}, new(string), new(int), new(bool), new(float64), new(int64), []*string{}, []*int{}, new([]string), new(map[string]string), new(interface{}), []struct{ A int }{}, map[string]struct{ A string }{}, []rune{}, []time.Duration{}, []time.Time{}, map[string]time.Time{}, []json.Number{}, []json.RawMessage{}, map[string]json.RawMessage{},
	[]error{}, new([]interface{}), new(map[string]interface{}), new(time.Time), new(time.Duration), new(json.Number), new(json.RawMessage), struct{}{}, []struct{}{}, map[string]struct{}{})

var fieldNames = []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J"}

// longName gives a name that begins with s and is long.
func longName(r *rand.Rand, s string) string {
	n := pick(r, []int{16, 28, 32, 60, 64, 124, 128, 250, 252, 253, 254, 255, 256, 300, 600}) + r.Intn(5) - 2
	return s + strings.Repeat(pick(r, []string{"x", "Yz", "é"}), n)[:n-n%2]
}

// tagText gives a tag with the JSON key s, and sometimes with other keys
// around it; a tag that is not well formed has no JSON key, or an earlier one.
func tagText(r *rand.Rand, s string) reflect.StructTag {
	t := fmt.Sprintf("json:%q", s)
	if r.Intn(8) == 0 {
		o := fmt.Sprintf("%q", pick(r, []string{"other", "-", ",string", "x,omitempty", ""}))
		t = pick(r, []string{"bigjson:" + o + " " + t, "xml:" + o + " " + t, t + " xml:" + o, t + " json:" + o, "Json:" + o + " " + t, t + " ", "  " + t, "jso:" + o + " " + t,
			"note:\"say json:\\\"no\\\"\" " + t, "json-" + t, "json " + t, "json:" + s, "json: " + t[5:], "x " + t, "x:y " + t, "JSON:" + o, "jsonx:" + o, "xml:" + o + t, t[:len(t)-1], "my_" + t, `json_v2:"b" ` + t, ":" + o + " " + t, "json.v1:" + o + "," + t})
	}
	return reflect.StructTag(t)
}

func (g *gen) structType(depth int) (t reflect.Type) {
	n := g.r.Intn(5)
	if g.r.Float64() < 0.2 {
		n = 1
	}
	var fs []reflect.StructField
	used := map[string]bool{}
	long := g.r.Intn(16) == 0
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fieldNames[i], Type: g.typ(depth - 1)}
		if long && g.r.Intn(2) == 0 {
			f.Name = longName(g.r, f.Name)
		}
		if len(g.p.embed) > 0 && g.r.Float64() < 0.3 {
			e := pick(g.r, g.p.embed)
			if e.Name() != "" && e.PkgPath() != "" && e.Name()[0] <= 'Z' && !used[e.Name()] && !hasMethods(e) {
				f.Anonymous, f.Type, f.Name = true, e, e.Name()
				used[e.Name()] = true
				if g.r.Intn(3) == 0 {
					f.Type = reflect.PtrTo(e)
				}
			}
		}
		if g.r.Float64() < 0.5 {
			tag := ""
			if len(g.p.names) > 0 && g.r.Float64() < 0.5 {
				tag = pick(g.r, g.p.names)
				if long && g.r.Intn(2) == 0 {
					tag = longName(g.r, tag)
				}
			}
			if len(g.p.tags) > 0 {
				tag += pick(g.r, g.p.tags)
			}
			if !f.Anonymous || g.r.Intn(2) == 0 {
				f.Tag = tagText(g.r, tag)
			}
		}
		fs = append(fs, f)
	}
	defer func() {
		if e := recover(); e != nil { // embedding not supported by reflect.StructOf
			for i := range fs {
				fs[i].Anonymous = false
				fs[i].Name = fieldNames[i]
			}
			t = reflect.StructOf(fs)
		}
	}()
	return reflect.StructOf(fs)
}

// value returns a random value of type t.
func (g *gen) value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	g.fill(v, depth)
	return v
}

func (g *gen) isNil() bool { return g.r.Float64() < g.p.nilp }

func (g *gen) length(depth int) int {
	m := g.p.maxLen
	if m == 0 {
		m = 3
	}
	if depth <= 0 {
		m = 1
	}
	if g.budget < 0 {
		return 0
	}
	return g.r.Intn(m + 1)
}

func (g *gen) fill(v reflect.Value, depth int) {
	r := g.r
	g.budget--
	t := v.Type()
	if g.p.zero > 0 && r.Float64() < g.p.zero {
		return
	}
	switch t {
	case tTime:
		v.Set(reflect.ValueOf(g.time()))
		return
	case tDur:
		v.SetInt(int64(g.duration()))
		return
	case tNum:
		v.SetString(g.number())
		return
	case tRaw:
		if !g.isNil() {
			v.SetBytes([]byte(g.rawJSON()))
		}
		return
	case tSyncMap:
		g.syncMap(v, depth)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int(t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(g.uint(t.Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.float(t.Bits()))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(1, 2))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Interface:
		if g.isNil() || len(g.p.dyn) == 0 {
			return
		}
		if g.p.common && t.NumMethod() == 0 && r.Intn(8) == 0 {
			// What decoded documents are made of, absent and empty too.
			var x interface{}
			switch r.Intn(4) {
			case 0:
				x = []interface{}(nil)
			case 1:
				x = map[string]interface{}(nil)
			case 2:
				x = []interface{}{}
			default:
				x = map[string]interface{}{}
			}
			v.Set(reflect.ValueOf(x))
			return
		}
		for try := 0; try < 20; try++ {
			dt := pick(r, g.p.dyn)
			if g.p.common && r.Intn(5) == 0 {
				dt = pick(r, commonT)
			}
			if t.NumMethod() == 0 && depth > 1 && g.budget > 0 && r.Intn(4) == 0 {
				dt = g.typ(1)
			}
			if !dt.Implements(t) {
				if reflect.PtrTo(dt).Implements(t) {
					dt = reflect.PtrTo(dt)
				} else {
					continue
				}
			}
			v.Set(g.value(dt, depth-1))
			return
		}
	case reflect.Ptr:
		if g.isNil() || depth <= -3 || g.budget < -50 {
			return
		}
		p := reflect.New(t.Elem())
		g.fill(p.Elem(), depth-1)
		if t.Name() != "" {
			p = p.Convert(t)
		}
		v.Set(p)
	case reflect.Slice:
		if g.isNil() || depth < -3 {
			return
		}
		n := g.length(depth)
		if t.Elem().Kind() == reflect.Uint8 {
			n = r.Intn(14)
		}
		s := reflect.MakeSlice(t, n, n+r.Intn(2))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if g.isNil() || depth < -3 {
			return
		}
		n := g.length(depth)
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := g.value(t.Key(), 0)
			if unhashable(k) {
				continue
			}
			m.SetMapIndex(k, g.value(t.Elem(), depth-1))
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			g.fill(addressable(v.Field(i)), depth-1)
		}
	case reflect.Chan:
		if !g.isNil() {
			v.Set(reflect.MakeChan(t, 0))
		}
	case reflect.Func:
		if !g.isNil() {
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { panic("called") }))
		}
	}
}

func unhashable(k reflect.Value) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	if k.Kind() == reflect.Float64 || k.Kind() == reflect.Float32 {
		return math.IsNaN(k.Float())
	}
	m := map[interface{}]int{k.Interface(): 1}
	_, ok := m[k.Interface()]
	return !ok
}

func (g *gen) syncMap(v reflect.Value, depth int) {
	m := v.Addr().Interface().(*sync.Map)
	for i, n := 0, g.length(depth); i < n; i++ {
		kt := pick(g.r, g.p.keys)
		k := g.value(kt, 0)
		if unhashable(k) {
			continue
		}
		var e interface{}
		if !g.isNil() && len(g.p.dyn) > 0 {
			e = g.value(pick(g.r, g.p.dyn), depth-1).Interface()
		}
		m.Store(k.Interface(), e)
	}
}

// ---- leaves ----

var strPieces = []string{
	"", "a", "key", "Z9", " ", "<", ">", "&", "\"", "\\", "/", "'", "\n", "\r", "\t", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f",
	"é", "世界", "\U0001F600", "\u2028", "\u2029", "\u2027", "\u202a", "\u2128", "\u20a8", "\u1028", "\u201c", "\ufffd", "\ufeff",
	"\xff", "\xc0\x80", "\xe2\x80", "\xe2", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98", "\x80", "\xe2\x80\xa8x",
	"null", "{}", "0", "-1", "a\"b", "a\\", "\\u0041",
}

func (g *gen) str() string {
	if len(g.p.strs) > 0 && (g.p.strOnly || g.r.Intn(2) == 0) {
		return pick(g.r, g.p.strs)
	}
	switch g.r.Intn(4) {
	case 0:
		return pick(g.r, []string{"", "a", "b", "ab", "B", "foo", "1"})
	case 1:
		n := g.r.Intn(6)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.r.Intn(256))
		}
		return string(b)
	default:
		var sb strings.Builder
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			sb.WriteString(pick(g.r, strPieces))
		}
		return sb.String()
	}
}

func (g *gen) int(bits int) int64 {
	switch g.r.Intn(5) {
	case 0:
		return int64(g.r.Intn(3)) - 1
	case 1:
		return -1 << (bits - 1)
	case 2:
		return 1<<(bits-1) - 1
	case 3:
		x := int64(math.Pow10(g.r.Intn(19))) + int64(g.r.Intn(3)) - 1
		if g.r.Intn(2) == 0 {
			x = -x
		}
		return x << (64 - bits) >> (64 - bits)
	}
	return int64(g.r.Uint64()) >> (64 - bits) >> g.r.Intn(bits)
}

func (g *gen) uint(bits int) uint64 {
	switch g.r.Intn(4) {
	case 0:
		return uint64(g.r.Intn(3))
	case 1:
		return math.MaxUint64 >> (64 - bits)
	}
	return g.r.Uint64() >> (64 - bits) >> g.r.Intn(bits)
}

func (g *gen) float(bits int) float64 {
	r := g.r
	if r.Float64() < g.p.bad {
		return pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
	}
	var f float64
	switch r.Intn(7) {
	case 0:
		f = pick(r, []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e-6, 1e-7, 9.999999e-7, 1e20, 1e21, 1e22, 999999999999999900000, 123456789, 100, 0.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-9, 1e-10, 1e9, 1e10, 1e100, 1e-100})
		if bits == 32 && math.Abs(f) > math.MaxFloat32 {
			f = math.MaxFloat32
		}
		if r.Intn(2) == 0 {
			f = -f
		}
	case 1:
		f = float64(r.Intn(2000)-1000) / 100
	case 2:
		f = math.Pow10(r.Intn(70) - 35)
	case 3:
		if bits == 32 {
			f = float64(math.Nextafter32(float32(pick(r, []float64{1e-6, 1e21})), float32(pick(r, []float64{0, 1e30}))))
		} else {
			f = math.Nextafter(pick(r, []float64{1e-6, 1e21}), pick(r, []float64{0, 1e30}))
		}
	case 4:
		f = float64(r.Int63n(1<<53)) * math.Pow10(r.Intn(44)-30)
	default:
		if bits == 32 {
			f = float64(math.Float32frombits(r.Uint32()))
		} else {
			f = math.Float64frombits(r.Uint64())
		}
	}
	if bits == 32 {
		f = float64(float32(f))
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1.5
	}
	return f
}

var goodNumbers = []string{"", "0", "-0", "1", "10", "123456789012345678901234567890", "-1.5", "0.0", "1e5", "1E+5", "1e-05", "-0.1e10", "9", "1.25E0"}
var badNumbers = []string{"-", "01", "1.", ".5", "1e", "1e+", "+1", "1.e1", "0x1", "1 ", " 1", "--1", "1e5.5", "NaN", "abc", "1a", "\"1\"", "1,2", "0-", "00", "-01", "1.5.5", "e5", "1ee5", "1e++5"}

func (g *gen) number() string {
	if g.r.Float64() < g.p.bad {
		return pick(g.r, badNumbers)
	}
	return pick(g.r, goodNumbers)
}

var goodJSON = []string{
	"null", "true", " false ", "0", "-1.5e+3", "\"\"", "\"a b\"", "[]", "{}", "[ ]", "{ }", " [ 1 , 2 ]\n", "{ \"a\" : [ true , null ] , \"b c\" : \"x y\" }",
	"\"<&>\"", "{\"<k>\":\"&\"}", "\"\\\"q\\\" , \\\\\"", "\"\u2028\u2029\u2027\"", "[\"\\u003c\",\"a\\nb\"]", "\t{\r\n\"a\":\t1}", "\"é世\U0001F600\"", "[\"a\\\\\", \"b\"]", "[\"\\\\\\\"  \", 1 ]",
	"[[[]], {\"a\": {}}]", "1 ", "\"\xff\"",
}
var badJSON = []string{"", " ", "{", "}", "[1,]", "{\"a\"}", "nul", "tru", "01", "\"", "\"\\x\"", "\"\n\"", "1 2", "[1 2]", "{\"a\":1,}", "{a:1}", "{]", "'a'", "\"\\u12\"", "-", "1.", "[", "]", ",", "NaN", "{\"a\":1}}"}

func (g *gen) rawJSON() string {
	if g.r.Float64() < g.p.bad {
		return pick(g.r, badJSON)
	}
	if len(g.p.rawGood) > 0 {
		return pick(g.r, g.p.rawGood)
	}
	return pick(g.r, goodJSON)
}

var zones = []int{0, 0, 3600, -3600, 5*3600 + 1800, -(9*3600 + 1800), 14 * 3600, -12 * 3600, 23*3600 + 59*60, -(23*3600 + 59*60), 60, -60, 59, -59, 30, -30, 3661, -3661, 10 * 3600, 11*3600 + 45*60}

var zoneNames = []string{"", "X", "\"<", "CEST", "GMT", "UTC", "a\"b", "\\", "\xff", "\u2028", "\n", "&"}

func (g *gen) time() time.Time {
	r := g.r
	loc := time.UTC
	if z := pick(r, zones); z != 0 || r.Intn(3) == 0 {
		loc = time.FixedZone(pick(r, zoneNames), z)
	}
	ns := pick(r, []int{0, 1, 100, 999999999, 500000000, 120000000, 1000, 123456789, r.Intn(1e9)})
	if r.Float64() < g.p.bad/2 {
		return time.Date(pick(r, []int{-1, 10000, 10001, -5000, 99999, 292277022}), 1, 1, 0, 0, 0, ns, loc)
	}
	switch r.Intn(6) {
	case 0:
		return time.Date(pick(r, []int{0, 0, 1, 4, 99, 100, 400, 1582, 1600, 1899, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999}),
			time.Month(pick(r, []int{1, 2, 2, 3, 12})), pick(r, []int{1, 28, 29, 30, 31}), pick(r, []int{0, 23, 12}), pick(r, []int{0, 59}), pick(r, []int{0, 59}), ns, loc)
	case 1:
		return time.Time{}.In(loc)
	case 2:
		return time.Unix(int64(r.Intn(2000000000)), int64(ns)).In(loc)
	case 3:
		return time.Unix(int64(r.Intn(4))-2, int64(ns)).In(loc)
	}
	// any day of the years 0..9999
	return time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, r.Intn(3652424)).Add(time.Duration(r.Intn(86400))*time.Second + time.Duration(ns)).In(loc)
}

func (g *gen) duration() time.Duration {
	r := g.r
	var d time.Duration
	switch r.Intn(5) {
	case 0:
		d = pick(r, []time.Duration{0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 999999999, 1e9, 1e9 + 1, 59 * time.Second, time.Minute, time.Minute - 1, time.Hour, time.Hour - 1, 24 * time.Hour, 100 * time.Hour, math.MaxInt64, math.MinInt64, math.MinInt64 + 1})
	case 1:
		d = time.Duration(math.Pow10(r.Intn(19)))*time.Duration(1+r.Intn(9)) + time.Duration(r.Intn(3)-1)
	case 2:
		d = time.Duration(r.Intn(200))*time.Hour + time.Duration(r.Intn(60))*time.Minute + time.Duration(r.Intn(60))*time.Second + time.Duration(pick(r, []int{0, 0, 5e8, 1, 1e6, 120}))
	default:
		d = time.Duration(r.Uint64() >> 1 >> r.Intn(62))
	}
	if r.Intn(2) == 0 {
		d = -d
	}
	return d
}

var _ = json.Number("")
