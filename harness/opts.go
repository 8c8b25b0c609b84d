package main

// Option lists.

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/wI2L/jettison"
)

type optItem struct {
	n    string   // name, or "nil"
	i    int      // DurationFormat: format; WithContext: context index (0 nil)
	l    []string // AllowList, DenyList
	isN  bool     // the list is nil
	text string   // TimeLayout
}

// ctxs are the contexts calls may use; index 1 is the default one.
var ctxs = []context.Context{
	context.TODO(),
	context.WithValue(context.Background(), ctxKey{}, "one"),
	canceled(context.WithValue(context.Background(), ctxKey{}, "two")),
	(*nilCtx)(nil),
}

// canceled: a context that is done is a context as good as any.
func canceled(c context.Context) context.Context {
	c, cancel := context.WithCancel(c)
	cancel()
	return c
}

// A nilCtx is a context also as a nil pointer.
type nilCtx struct{}

func (*nilCtx) Deadline() (t time.Time, ok bool) { return }
func (*nilCtx) Done() <-chan struct{}            { return nil }
func (*nilCtx) Err() error                       { return nil }
func (*nilCtx) Value(interface{}) interface{}    { return "nil" }

var layoutPool = []string{
	time.RFC3339Nano, time.RFC3339, time.Kitchen, time.RFC1123Z, time.ANSIC, "2006-01-02", "15:04:05.000000",
	"Monday <2006> & \"Jan\"", "2006\\01", "\u2028 06", "\xff02", "MST -07", ".999 05", "x", "MST", "2006 MST", "<MST>\"", "2006-01-02T15:04:05.999999999Z07:0", "2006-01-02T15:04:05Z07:00 ", "Jan _2 2006 \n\t",
}

var flagOpts = []string{"UnixTime", "UnsortedMap", "RawByteSlice", "ByteArrayAsString", "NilMapEmpty", "NilSliceEmpty",
	"NoStringEscaping", "NoHTMLEscaping", "NoUTF8Coercion", "NoCompact", "NoNumberValidation"}
var allOpts = append(append([]string{}, flagOpts...), "TimeLayout", "DurationFormat", "WithContext")

func (it optItem) option() jettison.Option {
	switch it.n {
	case "UnixTime":
		return jettison.UnixTime()
	case "UnsortedMap":
		return jettison.UnsortedMap()
	case "RawByteSlice":
		return jettison.RawByteSlice()
	case "ByteArrayAsString":
		return jettison.ByteArrayAsString()
	case "NilMapEmpty":
		return jettison.NilMapEmpty()
	case "NilSliceEmpty":
		return jettison.NilSliceEmpty()
	case "NoStringEscaping":
		return jettison.NoStringEscaping()
	case "NoHTMLEscaping":
		return jettison.NoHTMLEscaping()
	case "NoUTF8Coercion":
		return jettison.NoUTF8Coercion()
	case "NoCompact":
		return jettison.NoCompact()
	case "NoNumberValidation":
		return jettison.NoNumberValidation()
	case "TimeLayout":
		return jettison.TimeLayout(it.text)
	case "DurationFormat":
		return jettison.DurationFormat(jettison.DurationFmt(it.i))
	case "WithContext":
		if it.i == 0 {
			return jettison.WithContext(nil)
		}
		return jettison.WithContext(ctxs[it.i-1])
	case "AllowList":
		return jettison.AllowList(it.list())
	case "DenyList":
		return jettison.DenyList(it.list())
	case "nil":
		return nil
	}
	panic("unknown option " + it.n)
}

func (it optItem) list() []string {
	if it.isN {
		return nil
	}
	return append([]string{}, it.l...)
}

// oldOptions: use the options made for earlier calls again.
var oldOptions bool
var madeOptions = map[string]jettison.Option{}

// keepOptions makes the calls that follow use the options of each other.
func keepOptions() { oldOptions, madeOptions = true, map[string]jettison.Option{} }

func options(items []optItem) []jettison.Option {
	var os []jettison.Option
	for _, it := range items {
		if oldOptions && it.n != "nil" {
			k := fmt.Sprintf("%+v", it)
			if madeOptions[k] == nil {
				madeOptions[k] = it.option()
			}
			os = append(os, madeOptions[k])
			continue
		}
		os = append(os, it.option())
	}
	return os
}

// layouts returns the layouts of the list in order.
func layouts(items []optItem) (ls []string) {
	for _, it := range items {
		if it.n == "TimeLayout" {
			ls = append(ls, it.text)
		}
	}
	return
}

func writeOpts(w *jw, items []optItem) {
	w.raw(`"o":[`)
	li := 0
	for k, it := range items {
		if k > 0 {
			w.raw(",")
		}
		i := it.i
		if it.n == "TimeLayout" {
			li++
			i = li
		}
		fmt.Fprintf(&w.b, `{"n":"%s","i":%d,"l":[`, it.n, i)
		for j, s := range it.l {
			if j > 0 {
				w.raw(",")
			}
			w.bytes([]byte(s))
		}
		w.raw("]}")
	}
	w.raw(`],"ly":[`)
	for k, l := range layouts(items) {
		if k > 0 {
			w.raw(",")
		}
		switch l {
		case time.RFC3339Nano:
			w.raw(`"nano"`)
		case time.RFC3339:
			w.raw(`"sec"`)
		case "":
			w.raw(`"empty"`)
		default:
			w.raw(`"other"`)
		}
	}
	w.raw("]")
}

func one(n string) optItem { return optItem{n: n} }

// item returns a valid option of the given name.
func optOf(r *rand.Rand, n string, names []string) optItem {
	it := optItem{n: n}
	switch n {
	case "TimeLayout":
		it.text = pick(r, layoutPool)
		if r.Intn(3) == 0 {
			it.text = pick(r, layoutPool[:2])
		} else if r.Intn(8) == 0 { // long ones
			it.text = strings.Repeat(it.text+pick(r, []string{"", " ", "<"}), 2+r.Intn(pick(r, []int{2, 8, 30})))
		}
	case "DurationFormat":
		it.i = r.Intn(6)
	case "WithContext":
		it.i = 1 + r.Intn(len(ctxs))
	case "AllowList", "DenyList":
		for _, nm := range names {
			if r.Intn(2) == 0 {
				it.l = append(it.l, nm)
			}
		}
		if len(it.l) == 0 {
			it.isN = r.Intn(2) == 0
		} else if r.Intn(4) == 0 {
			it.l = append(it.l, it.l[0])
		}
	}
	return it
}

// someOpts returns up to max valid options among the named ones.
func someOpts(r *rand.Rand, among []string, max int) (l []optItem) {
	if len(among) == 0 {
		return nil
	}
	for n := r.Intn(max + 1); n > 0; n-- {
		l = append(l, optOf(r, pick(r, among), nil))
	}
	return
}

// relevant returns the names of the options that are about something that t
// mentions.
func relevant(t reflect.Type) map[string]bool {
	have := map[string]bool{}
	add := func(ns ...string) {
		for _, n := range ns {
			have[n] = true
		}
	}
	mentions(t, func(t reflect.Type, _ reflect.StructTag) bool {
		switch special(t) {
		case "time":
			add("UnixTime", "TimeLayout")
		case "duration":
			add("DurationFormat")
		case "number":
			add("NoNumberValidation")
		case "raw":
			add("NoCompact", "NoHTMLEscaping")
		case "syncmap":
			add("UnsortedMap")
		}
		if t.Implements(iJ) || reflect.PtrTo(t).Implements(iJ) {
			add("NoCompact", "NoHTMLEscaping")
		}
		if t.Implements(iT) || reflect.PtrTo(t).Implements(iT) {
			add("NoStringEscaping", "NoUTF8Coercion", "NoHTMLEscaping")
		}
		if t.Implements(iC) || reflect.PtrTo(t).Implements(iC) {
			add("WithContext")
		}
		switch t.Kind() {
		case reflect.String:
			add("NoStringEscaping", "NoUTF8Coercion", "NoHTMLEscaping")
		case reflect.Map:
			add("UnsortedMap", "NilMapEmpty")
		case reflect.Slice:
			add("NilSliceEmpty")
			if t.Elem().Kind() == reflect.Uint8 {
				add("RawByteSlice", "NoStringEscaping", "NoUTF8Coercion")
			}
		case reflect.Array:
			if t.Elem().Kind() == reflect.Uint8 {
				add("ByteArrayAsString")
			}
		case reflect.Struct:
			add("AllowList", "DenyList")
		}
		return false
	})
	return have
}

// optsFor is like someOpts, but prefers options that are about something that
// v has in it, and those more often.
func optsFor(r *rand.Rand, v interface{}, among []string, max int) (l []optItem) {
	t, ok := v.(reflect.Type)
	if !ok {
		t = reflect.TypeOf(v)
	}
	if t == nil || r.Intn(3) == 0 {
		return someOpts(r, among, max)
	}
	have := relevant(t)
	var some []string
	for _, n := range among {
		if have[n] {
			some = append(some, n)
		}
	}
	if len(some) == 0 {
		return someOpts(r, among, max)
	}
	for n := 1 + r.Intn(max+1); n > 0; n-- {
		l = append(l, optOf(r, pick(r, some), nil))
	}
	return
}

func (it optItem) String() string {
	switch it.n {
	case "TimeLayout":
		return fmt.Sprintf("TimeLayout(%q)", it.text)
	case "DurationFormat", "WithContext":
		return fmt.Sprintf("%s(%d)", it.n, it.i)
	case "AllowList", "DenyList":
		return fmt.Sprintf("%s(%q)", it.n, it.l)
	}
	return it.n
}
