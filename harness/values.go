package main

// Builds the types and values of MC_Values.

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"reflect"
	"time"
)

var flagTable = flag.String("table", "", "types of the plan (JSON, as in JTypes)")

// the types with methods of MC_Table: A says what the methods return
type VMV struct{ A int }
type VMP struct{ A int }
type VTV struct{ A int }
type VAP struct{ A int }

func vres(i int, s ...string) ([]byte, error) {
	if i == 2 || i < 0 || i > 3 {
		return nil, errors.New("no")
	}
	return []byte(s[i]), nil
}
func (v VMV) MarshalJSON() ([]byte, error)  { return vres(v.A, "null", ` {"<" :1}`, "", "{") }
func (v *VMP) MarshalJSON() ([]byte, error) { return vres(v.A, "null", ` {"<" :1}`, "", "{") }
func (v VTV) MarshalText() ([]byte, error)  { return vres(v.A, "", "<\"\xff", "", "a") }
func (v *VAP) AppendJSON(dst []byte) ([]byte, error) {
	b, err := vres(v.A, "null", "[1]", "", "0")
	return append(dst, b...), err
}

var vNamed = map[string]reflect.Type{
	"MV": reflect.TypeOf(VMV{}), "MP": reflect.TypeOf(VMP{}), "TV": reflect.TypeOf(VTV{}), "AP": reflect.TypeOf(VAP{}),
	"int": reflect.TypeOf(0), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false), "float64": reflect.TypeOf(0.0),
	"uint8": reflect.TypeOf(uint8(0)), "Duration": tDur, "Number": tNum, "RawMessage": tRaw, "Time": tTime,
}

type vType struct {
	K, N, Sp string
	E, Key   int
	Len      int
	Ms, Mp   map[string]bool
	F        []struct {
		N, Tag ints
		T      int
	}
}

var vTable []vType
var vTypes = map[int]reflect.Type{}

func vTypeOf(i int) reflect.Type {
	if t := vTypes[i]; t != nil {
		return t
	}
	d := vTable[i-1]
	var t reflect.Type
	switch {
	case d.N != "":
		t = vNamed[d.N]
	case d.K == "iface":
		t = tIface
	case d.K == "chan":
		t = reflect.TypeOf(make(chan int))
	case d.K == "ptr":
		t = reflect.PtrTo(vTypeOf(d.E))
	case d.K == "slice":
		t = reflect.SliceOf(vTypeOf(d.E))
	case d.K == "array":
		t = reflect.ArrayOf(d.Len, vTypeOf(d.E))
	case d.K == "map":
		t = reflect.MapOf(vTypeOf(d.Key), vTypeOf(d.E))
	case d.K == "struct":
		var fs []reflect.StructField
		for _, f := range d.F {
			sf := reflect.StructField{Name: f.N.str(), Type: vTypeOf(f.T)}
			if len(f.Tag) > 0 {
				sf.Tag = reflect.StructTag(fmt.Sprintf("json:%q", f.Tag.str()))
			}
			fs = append(fs, sf)
		}
		t = reflect.StructOf(fs)
	}
	// the table says what reflect says
	for m, has := range map[string]bool{"C": t.Implements(iC), "A": t.Implements(iA), "J": t.Implements(iJ), "T": t.Implements(iT)} {
		p := reflect.PtrTo(t)
		if d.Ms[m] != has || d.Mp[m] != map[string]bool{"C": p.Implements(iC), "A": p.Implements(iA), "J": p.Implements(iJ), "T": p.Implements(iT)}[m] {
			check(fmt.Errorf("the table has other methods for %v", t))
		}
	}
	if d.K != kindName(t) || d.Sp != special(t) {
		check(fmt.Errorf("the table has another kind for %v", t))
	}
	vTypes[i] = t
	return t
}

type vNode struct {
	Nil bool
	T   int
	B   bool
	N   struct {
		Neg bool
		L   [4]uint64
	}
	X struct {
		C   string
		Neg bool
		D   []int
		X   int
	}
	S   json.RawMessage
	Ns  int
	Off int
	E   json.RawMessage
	F   []json.RawMessage
	K   []json.RawMessage
	V   []json.RawMessage
}

func (n *vNode) int() int64 {
	x := int64(n.N.L[0]<<48 | n.N.L[1]<<32 | n.N.L[2]<<16 | n.N.L[3])
	if n.N.Neg {
		return -x
	}
	return x
}

// vValue sets v, of type number i of the table, to the value of the node.
func vValue(v reflect.Value, i int, raw json.RawMessage) {
	d := vTable[i-1]
	var n vNode
	check(json.Unmarshal(raw, &n))
	str := func() string {
		var s ints
		check(json.Unmarshal(n.S, &s))
		return s.str()
	}
	list := func() (l []json.RawMessage) {
		check(json.Unmarshal(n.E, &l))
		return
	}
	if d.Sp == "time" {
		var s struct{ S json.RawMessage }
		check(json.Unmarshal(raw, &s))
		var m vNode
		check(json.Unmarshal([]byte(`{"n":`+string(s.S)+`}`), &m))
		v.Set(reflect.ValueOf(time.Unix(m.int(), int64(n.Ns)).In(time.FixedZone("", n.Off))))
		return
	}
	switch d.K {
	case "bool":
		v.SetBool(n.B)
	case "int":
		v.SetInt(n.int())
	case "uint":
		v.SetUint(uint64(n.int()))
	case "string":
		v.SetString(str())
	case "float64":
		f := 0.0
		if n.X.C == "nan" {
			f = math.NaN()
		} else {
			for k, c := range n.X.D {
				f += float64(c) * math.Pow(10, float64(n.X.X-k))
			}
			if n.X.Neg {
				f = math.Copysign(f, -1)
			}
		}
		v.SetFloat(f)
	case "iface":
		if !n.Nil {
			e := reflect.New(vTypeOf(n.T)).Elem()
			vValue(e, n.T, n.E)
			v.Set(e)
		}
	case "ptr":
		if !n.Nil {
			v.Set(reflect.New(v.Type().Elem()))
			vValue(v.Elem(), d.E, n.E)
		}
	case "slice":
		if n.Nil {
			return
		}
		if n.S != nil {
			s := str()
			v.Set(reflect.MakeSlice(v.Type(), len(s), len(s)))
			reflect.Copy(v, reflect.ValueOf([]byte(s)))
			return
		}
		l := list()
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for k, e := range l {
			vValue(v.Index(k), d.E, e)
		}
	case "array":
		if n.S != nil {
			reflect.Copy(v, reflect.ValueOf([]byte(str())))
			return
		}
		for k, e := range list() {
			vValue(v.Index(k), d.E, e)
		}
	case "map":
		if n.Nil {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for k := range n.K {
			key, val := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			vValue(key, d.Key, n.K[k])
			vValue(val, d.E, n.V[k])
			v.SetMapIndex(key, val)
		}
	case "struct":
		for k, f := range n.F {
			vValue(v.Field(k), d.F[k].T, f)
		}
	}
}

// planValues encodes the values of a type, directly or through a pointer, with
// options (those of Options in MC_Values, mostly).
func (h *H) planValues(l planLine) {
	if vTable == nil {
		b, err := os.ReadFile(*flagTable)
		check(err)
		check(json.Unmarshal(b, &vTable))
	}
	var s struct {
		T, K int
		Vs   []json.RawMessage
	}
	l.into(&s)
	t := vTypeOf(s.T)
	var vs []interface{}
	for _, n := range s.Vs {
		p := reflect.New(t)
		vValue(p.Elem(), s.T, n)
		if s.K == 1 {
			vs = append(vs, p.Interface())
		} else {
			vs = append(vs, p.Elem().Interface())
		}
	}
	all := []optItem{one("UnixTime"), one("UnsortedMap"), one("RawByteSlice"), one("ByteArrayAsString"), one("NilMapEmpty"), one("NilSliceEmpty"),
		one("NoHTMLEscaping"), one("NoUTF8Coercion"), one("NoCompact"), one("NoNumberValidation"), {n: "DurationFormat", i: 0},
		{n: "DenyList", l: []string{"A"}}, {n: "AllowList", l: []string{"A", "B"}}, one("NoStringEscaping")}
	var some []optItem
	rel := relevant(t)
	for _, o := range all {
		if rel[o.n] {
			some = append(some, o)
		}
	}
	h.many(vs, nil, true)
	h.many(vs, []optItem{pick(h.r, all)}, true)
	switch {
	case len(some) == 0:
		h.many(vs, []optItem{pick(h.r, all), pick(h.r, all)}, true)
	case vDepth(s.T) < 2: // each and every two
		for i, a := range some {
			h.many(vs, []optItem{a}, true)
			for _, b := range some[i+1:] {
				h.many(vs, []optItem{a, b}, true)
			}
		}
	default:
		h.many(vs, []optItem{pick(h.r, some)}, true)
		h.many(vs, []optItem{pick(h.r, some), pick(h.r, some)}, true)
	}
}

// vDepth returns how much type i is made of.
func vDepth(i int) (n int) {
	d := vTable[i-1]
	max := func(j int) {
		if j > 0 {
			if m := 1 + vDepth(j); m > n {
				n = m
			}
		}
	}
	if d.N == "" {
		max(d.E)
		max(d.Key)
		for _, f := range d.F {
			max(f.T)
		}
	}
	return
}
