package main

// Descriptors: Go types and values as the records the specification reads.

import (
	"bytes"
	"context"
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unsafe"

	"github.com/wI2L/jettison"
)

var (
	tTime    = reflect.TypeOf(time.Time{})
	tDur     = reflect.TypeOf(time.Duration(0))
	tNum     = reflect.TypeOf(json.Number(""))
	tRaw     = reflect.TypeOf(json.RawMessage(nil))
	tSyncMap = reflect.TypeOf((*sync.Map)(nil)).Elem()
	tIface   = reflect.TypeOf((*interface{})(nil)).Elem()
	iJ       = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	iT       = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	iA       = reflect.TypeOf((*jettison.AppendMarshaler)(nil)).Elem()
	iC       = reflect.TypeOf((*jettison.AppendMarshalerCtx)(nil)).Elem()
)

// ---- JSON writing helpers (compact, no reflection) ----

type jw struct{ b bytes.Buffer }

func (w *jw) str(s string) { b, _ := json.Marshal(s); w.b.Write(b) }
func (w *jw) bytes(s []byte) {
	w.b.WriteByte('[')
	for i, c := range s {
		if i > 0 {
			w.b.WriteByte(',')
		}
		w.b.WriteString(strconv.Itoa(int(c)))
	}
	w.b.WriteByte(']')
}
func (w *jw) raw(s string) { w.b.WriteString(s) }
func (w *jw) key(k string) { w.b.WriteByte('"'); w.b.WriteString(k); w.b.WriteString(`":`) }
func (w *jw) bool(b bool)  { w.raw(strconv.FormatBool(b)) }
func (w *jw) int(i int)    { w.raw(strconv.Itoa(i)) }
func (w *jw) mag(neg bool, u uint64) {
	fmt.Fprintf(&w.b, `{"neg":%t,"l":[%d,%d,%d,%d]}`, neg, u>>48, (u>>32)&0xffff, (u>>16)&0xffff, u&0xffff)
}
func (w *jw) i64(i int64) {
	if i < 0 {
		w.mag(true, uint64(-i))
	} else {
		w.mag(false, uint64(i))
	}
}

// float writes the shortest decimal digits of f (trusted: strconv).
func (w *jw) float(f float64, bits int) {
	switch {
	case math.IsNaN(f):
		w.raw(`{"c":"nan","neg":false,"d":[0],"x":0}`)
		return
	case math.IsInf(f, 0):
		fmt.Fprintf(&w.b, `{"c":"inf","neg":%t,"d":[0],"x":0}`, f < 0)
		return
	}
	s := strconv.FormatFloat(math.Abs(f), 'e', -1, bits)
	e := strings.IndexByte(s, 'e')
	x, _ := strconv.Atoi(s[e+1:])
	ds := strings.Replace(s[:e], ".", "", 1)
	fmt.Fprintf(&w.b, `{"c":"fin","neg":%t,"d":[`, math.Signbit(f))
	for i := range ds {
		if i > 0 {
			w.b.WriteByte(',')
		}
		w.b.WriteByte(ds[i])
	}
	fmt.Fprintf(&w.b, `],"x":%d}`, x)
}

// ---- types ----

type typeTab struct {
	ids  map[reflect.Type]int
	list []reflect.Type
	// names overrides Type.String in the table (unused types have "")
}

func newTypeTab() *typeTab { return &typeTab{ids: map[reflect.Type]int{}} }

// id returns the 1-based index of t, adding it and all it refers to.
func (tt *typeTab) id(t reflect.Type) int {
	if i, ok := tt.ids[t]; ok {
		return i
	}
	tt.list = append(tt.list, t)
	i := len(tt.list)
	tt.ids[t] = i
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		tt.id(t.Elem())
	case reflect.Map:
		tt.id(t.Key())
		tt.id(t.Elem())
	case reflect.Struct:
		if special(t) == "" {
			for k := 0; k < t.NumField(); k++ {
				tt.id(t.Field(k).Type)
			}
		}
	}
	return i
}

func special(t reflect.Type) string {
	switch t {
	case tTime:
		return "time"
	case tDur:
		return "duration"
	case tNum:
		return "number"
	case tRaw:
		return "raw"
	case tSyncMap:
		return "syncmap"
	}
	return ""
}

func kindName(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Bool:
		return "bool"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "int"
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return "uint"
	case reflect.String:
		return "string"
	case reflect.Float32:
		return "float32"
	case reflect.Float64:
		return "float64"
	case reflect.Interface:
		return "iface"
	case reflect.Struct:
		return "struct"
	case reflect.Map:
		return "map"
	case reflect.Slice:
		return "slice"
	case reflect.Array:
		return "array"
	case reflect.Ptr:
		return "ptr"
	case reflect.Chan:
		return "chan"
	case reflect.Func:
		return "func"
	case reflect.Complex64, reflect.Complex128:
		return "complex"
	}
	return "unsafe"
}

func methods(t reflect.Type) string {
	return fmt.Sprintf(`{"C":%t,"A":%t,"J":%t,"T":%t}`,
		t.Implements(iC), t.Implements(iA), t.Implements(iJ), t.Implements(iT))
}

func hasMethods(t reflect.Type) bool {
	p := reflect.PtrTo(t)
	return p.Implements(iC) || p.Implements(iA) || p.Implements(iJ) || p.Implements(iT) ||
		(t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) &&
			(t.Implements(iC) || t.Implements(iA) || t.Implements(iJ) || t.Implements(iT))
}

func valueMethods(t reflect.Type) bool {
	return t.Implements(iC) || t.Implements(iA) || t.Implements(iJ) || t.Implements(iT)
}

func (tt *typeTab) write(w *jw) {
	w.raw("[")
	for i := 0; i < len(tt.list); i++ {
		t := tt.list[i]
		if i > 0 {
			w.raw(",\n")
		}
		e, key, ln := 0, 0, 0
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice:
			e = tt.id(t.Elem())
		case reflect.Array:
			e, ln = tt.id(t.Elem()), t.Len()
		case reflect.Map:
			e, key = tt.id(t.Elem()), tt.id(t.Key())
		}
		w.raw(`{"k":"` + kindName(t) + `","n":`)
		w.str(t.String())
		fmt.Fprintf(&w.b, `,"nm":%t,"b":%t,"e":%d,"key":%d,"len":%d,"sp":"%s","ms":%s,"mp":%s,"f":[`,
			t.Name() != "", t.Kind() == reflect.Uint8, e, key, ln, special(t), methods(t), methods(reflect.PtrTo(t)))
		if t.Kind() == reflect.Struct && special(t) == "" {
			for k := 0; k < t.NumField(); k++ {
				f := t.Field(k)
				if k > 0 {
					w.raw(",")
				}
				tag := f.Tag.Get("json")
				name := tag
				if c := strings.IndexByte(tag, ','); c >= 0 {
					name = tag[:c]
				}
				u := true
				for _, r := range name {
					if r >= 128 && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
						u = false
					}
				}
				w.raw(`{"n":`)
				w.bytes([]byte(f.Name))
				fmt.Fprintf(&w.b, `,"x":%t,"a":%t,"t":%d,"u":%t,"tag":`, f.PkgPath == "", f.Anonymous, tt.id(f.Type), u)
				w.bytes([]byte(tag))
				w.raw("}")
			}
		}
		w.raw("]}")
	}
	w.raw("]\n")
}

// ---- values ----

// A valueWriter describes values for one call.
type valueWriter struct {
	w       *jw
	tt      *typeTab
	layouts []string          // the call's time layouts
	ctxs    []context.Context // contexts by index (1-based in the spec)
	path    map[pathKey]bool
	nodes   int
	bad     string // reason why the value cannot be described
}

type pathKey struct {
	t reflect.Type
	p unsafe.Pointer
	n int
}

type descErr struct{ why string }

// addressable returns v or an addressable copy of it, free of read-only flags.
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Elem()
}

type mres struct {
	ok bool
	b  []byte
	x  string
}

func errID(err error) string {
	if err == nil {
		return ""
	}
	switch err.(type) {
	case *json.SyntaxError, *jettison.SyntaxError:
		return "syntax"
	}
	return err.Error()
}

func callM(f func() ([]byte, error)) (r mres) {
	defer func() {
		if e := recover(); e != nil {
			panic(descErr{fmt.Sprint("method panics: ", e)})
		}
	}()
	b, err := f()
	if err != nil {
		return mres{false, nil, errID(err)}
	}
	return mres{true, b, ""}
}

func (vw *valueWriter) mres(r mres) {
	fmt.Fprintf(&vw.w.b, `{"ok":%t,"b":`, r.ok)
	vw.w.bytes(r.b)
	vw.w.raw(`,"x":`)
	vw.w.str(r.x)
	vw.w.raw("}")
}

// methodResults writes the m member: what the marshaling methods of v
// return when called directly.
func (vw *valueWriter) methodResults(v reflect.Value) {
	t := v.Type()
	if t.Kind() == reflect.Interface || !hasMethods(t) {
		return
	}
	var i interface{}
	if t.Kind() == reflect.Ptr {
		if v.IsNil() && !t.Elem().Implements(iJ) && !t.Elem().Implements(iT) && !t.Elem().Implements(iA) && !t.Elem().Implements(iC) {
			// methods with a pointer receiver may be called on nil
		} else if v.IsNil() {
			return // a call would panic: never reached by the encoder
		}
		i = v.Interface()
	} else {
		c := reflect.New(t)
		c.Elem().Set(v)
		i = c.Interface()
	}
	w := vw.w
	w.raw(`,"m":{`)
	n := 0
	sep := func(k string) {
		if n > 0 {
			w.raw(",")
		}
		n++
		w.key(k)
	}
	if m, ok := i.(jettison.AppendMarshalerCtx); ok {
		sep("C")
		w.raw("[")
		for k, c := range vw.ctxs {
			if k > 0 {
				w.raw(",")
			}
			if c == nil {
				w.raw("0")
				continue
			}
			vw.mres(callM(func() ([]byte, error) { return m.AppendJSONContext(c, nil) }))
		}
		w.raw("]")
	}
	if m, ok := i.(jettison.AppendMarshaler); ok {
		sep("A")
		vw.mres(callM(func() ([]byte, error) { return m.AppendJSON(nil) }))
	}
	if m, ok := i.(json.Marshaler); ok {
		sep("J")
		vw.mres(callM(m.MarshalJSON))
	}
	if m, ok := i.(encoding.TextMarshaler); ok {
		sep("T")
		vw.mres(callM(m.MarshalText))
	}
	w.raw("}")
}

const maxNodes = 4000

// value writes the node of v. v is addressable.
func (vw *valueWriter) value(v reflect.Value) {
	w := vw.w
	t := v.Type()
	vw.nodes++
	if vw.nodes > maxNodes {
		panic(descErr{"value too large"})
	}
	w.raw("{")
	switch special(t) {
	case "time":
		tm := v.Interface().(time.Time)
		_, off := tm.Zone()
		w.raw(`"s":`)
		w.i64(tm.Unix())
		fmt.Fprintf(&w.b, `,"ns":%d,"off":%d,"fmts":[`, tm.Nanosecond(), off)
		for k, l := range vw.layouts {
			if k > 0 {
				w.raw(",")
			}
			w.bytes([]byte(tm.Format(l)))
		}
		w.raw("]")
	case "duration":
		d := time.Duration(v.Int())
		w.raw(`"n":`)
		w.i64(int64(d))
		w.raw(`,"sec":`)
		w.float(d.Seconds(), 64)
		w.raw(`,"min":`)
		w.float(d.Minutes(), 64)
	case "number":
		w.raw(`"s":`)
		w.bytes([]byte(v.String()))
	case "raw":
		fmt.Fprintf(&w.b, `"nil":%t,"len":%d,"s":`, v.IsNil(), v.Len())
		w.bytes(v.Bytes())
	case "syncmap":
		type ent struct{ k, v interface{} }
		var es []ent
		v.Addr().Interface().(*sync.Map).Range(func(k, x interface{}) bool {
			es = append(es, ent{k, x})
			return true
		})
		w.raw(`"k":[`)
		for k, e := range es {
			if k > 0 {
				w.raw(",")
			}
			vw.iface(e.k)
		}
		w.raw(`],"v":[`)
		for k, e := range es {
			if k > 0 {
				w.raw(",")
			}
			vw.iface(e.v)
		}
		w.raw("]")
	default:
		vw.kind(v)
	}
	vw.methodResults(v)
	w.raw("}")
}

// iface writes the node of an interface holding i.
func (vw *valueWriter) iface(i interface{}) {
	w := vw.w
	if i == nil {
		w.raw(`{"nil":true}`)
		return
	}
	v := reflect.ValueOf(i)
	fmt.Fprintf(&w.b, `{"nil":false,"t":%d,"e":`, vw.tt.id(v.Type()))
	vw.value(addressable(v))
	w.raw("}")
}

func (vw *valueWriter) enter(v reflect.Value, n int) (pathKey, bool) {
	k := pathKey{v.Type(), v.UnsafePointer(), n}
	if vw.path[k] {
		return k, false
	}
	vw.path[k] = true
	return k, true
}

func (vw *valueWriter) kind(v reflect.Value) {
	w := vw.w
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		w.raw(`"b":`)
		w.bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.raw(`"n":`)
		w.i64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.raw(`"n":`)
		w.mag(false, v.Uint())
	case reflect.Float32:
		w.raw(`"x":`)
		w.float(v.Float(), 32)
	case reflect.Float64:
		w.raw(`"x":`)
		w.float(v.Float(), 64)
	case reflect.String:
		w.raw(`"s":`)
		w.bytes([]byte(v.String()))
	case reflect.Interface:
		if v.IsNil() {
			w.raw(`"nil":true`)
			return
		}
		e := v.Elem()
		if hasMethods(t) && e.Kind() == reflect.Ptr && e.IsNil() && hasMethods(e.Type().Elem()) && valueMethods(e.Type().Elem()) {
			panic(descErr{"call through a nil pointer in an interface"})
		}
		fmt.Fprintf(&w.b, `"nil":false,"t":%d,"e":`, vw.tt.id(e.Type()))
		vw.value(addressable(e))
	case reflect.Ptr:
		fmt.Fprintf(&w.b, `"nil":%t`, v.IsNil())
		if v.IsNil() {
			return
		}
		k, ok := vw.enter(v, 0)
		fmt.Fprintf(&w.b, `,"cyc":%t`, !ok)
		if !ok {
			return
		}
		w.raw(`,"e":`)
		vw.value(reflect.NewAt(t.Elem(), v.UnsafePointer()).Elem())
		delete(vw.path, k)
	case reflect.Slice:
		fmt.Fprintf(&w.b, `"nil":%t,"len":%d`, v.IsNil(), v.Len())
		if byteElem(t) {
			w.raw(`,"s":`)
			w.bytes(byteContent(v))
			return
		}
		if v.Len() > 0 {
			k, ok := vw.enter(v, v.Len())
			fmt.Fprintf(&w.b, `,"cyc":%t`, !ok)
			if !ok {
				return
			}
			defer delete(vw.path, k)
		} else {
			w.raw(`,"cyc":false`)
		}
		w.raw(`,"e":[`)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w.raw(",")
			}
			vw.value(addressable(v.Index(i)))
		}
		w.raw("]")
	case reflect.Array:
		if byteElem(t) {
			w.raw(`"s":`)
			w.bytes(byteContent(v))
			return
		}
		w.raw(`"e":[`)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w.raw(",")
			}
			vw.value(addressable(v.Index(i)))
		}
		w.raw("]")
	case reflect.Map:
		fmt.Fprintf(&w.b, `"nil":%t`, v.IsNil())
		if v.Len() > 0 {
			k, ok := vw.enter(v, 0)
			fmt.Fprintf(&w.b, `,"cyc":%t`, !ok)
			if !ok {
				w.raw(`,"k":[0]`)
				return
			}
			defer delete(vw.path, k)
		} else {
			w.raw(`,"cyc":false`)
		}
		keys := v.MapKeys()
		w.raw(`,"k":[`)
		for i, k := range keys {
			if i > 0 {
				w.raw(",")
			}
			vw.value(addressable(k))
		}
		w.raw(`],"v":[`)
		for i, k := range keys {
			if i > 0 {
				w.raw(",")
			}
			e := v.MapIndex(k)
			if !e.IsValid() {
				panic(descErr{"map key does not find itself"})
			}
			vw.value(addressable(e))
		}
		w.raw("]")
	case reflect.Struct:
		w.raw(`"f":[`)
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				w.raw(",")
			}
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				w.raw("0")
				continue
			}
			vw.value(addressable(v.Field(i)))
		}
		w.raw("]")
	default: // chan, func, complex, unsafe pointer
		w.raw(`"z":0`)
	}
}

func byteElem(t reflect.Type) bool {
	e := t.Elem()
	p := reflect.PtrTo(e)
	return e.Kind() == reflect.Uint8 && !p.Implements(iJ) && !p.Implements(iT) && !p.Implements(iA) && !p.Implements(iC)
}

func byteContent(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

// describe returns the node of the interface value i, or an error when it
// cannot be described.
func describe(tt *typeTab, i interface{}, layouts []string, ctxs []context.Context) (node []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			if d, ok := e.(descErr); ok {
				err = fmt.Errorf("%s", d.why)
				return
			}
			panic(e)
		}
	}()
	vw := &valueWriter{w: &jw{}, tt: tt, layouts: layouts, ctxs: ctxs, path: map[pathKey]bool{}}
	vw.iface(i)
	return vw.w.b.Bytes(), nil
}

// ---- errors ----

type callRes struct {
	ok bool
	b  []byte
	k  string // error kind: type value marshal option panic other
	t  string
	m  string
	x  string
}

func classify(err error) callRes {
	r := callRes{}
	switch e := err.(type) {
	case nil:
		r.ok = true
	case *jettison.UnsupportedTypeError:
		r.k = "type"
		if e.Type != nil {
			r.t = e.Type.String()
		}
	case *jettison.UnsupportedValueError:
		r.k, r.x = "value", e.Str
		v := e.Value // the error names the value
		switch cyc := strings.HasPrefix(e.Str, "encountered a cycle"); {
		case !v.IsValid():
			r.x = "no value"
		case cyc && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Map || v.Kind() == reflect.Slice) && !v.IsNil():
			r.x = "cycle"
		case cyc || v.Kind() == reflect.Float64 && strconv.FormatFloat(v.Float(), 'g', -1, 64) != e.Str:
			r.x = "another value"
		}
	case *jettison.MarshalerError:
		r.k = "marshal"
		if e.Type != nil {
			r.t = e.Type.String()
		}
		s := strings.TrimPrefix(e.Error(), "json: error calling ")
		if i := strings.IndexByte(s, ' '); i > 0 {
			r.m = s[:i]
		}
		r.x = errID(e.Unwrap())
	case *jettison.InvalidOptionError:
		r.k = "option"
	default:
		r.k = "other"
	}
	return r
}

func (r callRes) write(w *jw) {
	fmt.Fprintf(&w.b, `{"ok":%t,"b":`, r.ok)
	w.bytes(r.b)
	fmt.Fprintf(&w.b, `,"e":{"k":"%s","t":`, r.k)
	w.str(r.t)
	w.raw(`,"m":`)
	w.str(r.m)
	w.raw(`,"x":`)
	w.str(r.x)
	w.raw("}}")
}

func guard(f func() ([]byte, error)) (r callRes) {
	defer func() {
		if e := recover(); e != nil {
			r = callRes{k: "panic", x: fmt.Sprint(e)}
		}
	}()
	b, err := f()
	r = classify(err)
	r.b = b
	return r
}

func sortedKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
