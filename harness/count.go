package main

// How often methods are called: once for each place where what they give is
// written (JJudge, "count"), and not for what is omitted or denied.

import (
	"context"
	"fmt"
	"reflect"
	"sync"

	"github.com/wI2L/jettison"
)

// A counter counts the calls of the methods of the values that hold it.
type counter struct {
	text  string
	calls int
}

func (c *counter) call() string {
	if c == nil {
		return "cntnone"
	}
	c.calls++
	return c.text
}

type CntJ struct{ c *counter }
type CntJ2 struct {
	c *counter
	X int
}
type CntT struct {
	c *counter
	X string
}
type CntA struct{ c *counter }
type CntC struct {
	c *counter
	X [3]int
}
type CntPJ struct {
	c *counter
	X int
}
type CntPT struct{ c *counter }
type CntPA struct {
	c *counter
	X *int
}
type CntF func() *counter
type CntS []*counter
type CntM map[string]*counter

func (v CntJ) MarshalJSON() ([]byte, error)  { return []byte(` ["` + v.c.call() + `" ] `), nil }
func (v CntJ2) MarshalJSON() ([]byte, error) { return []byte(`"` + v.c.call() + `"`), nil }
func (v CntT) MarshalText() ([]byte, error)  { return []byte("<" + v.c.call()), nil }
func (v CntA) AppendJSON(b []byte) ([]byte, error) {
	return append(b, `"`+v.c.call()+`"`...), nil
}
func (v CntC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `{"`+v.c.call()+`":1}`...), nil
}
func (v *CntPJ) MarshalJSON() ([]byte, error)       { return []byte(`{"` + v.c.call() + `":null}`), nil }
func (v *CntPT) MarshalText() ([]byte, error)       { return []byte(v.c.call()), nil }
func (v *CntPA) AppendJSON(b []byte) ([]byte, error) { return append(b, `"`+v.c.call()+`"`...), nil }
func (v CntF) MarshalJSON() ([]byte, error) {
	if v == nil {
		return []byte(`0`), nil
	}
	return []byte(`"` + v().call() + `"`), nil
}
func (v CntS) MarshalText() ([]byte, error) {
	if len(v) == 0 {
		return nil, nil
	}
	return []byte(v[0].call()), nil
}
func (v CntM) AppendJSON(b []byte) ([]byte, error) {
	if v == nil {
		return append(b, '0'), nil
	}
	return append(b, `"`+v["c"].call()+`"`...), nil
}

// counted gives a value whose methods count, in one of its forms.
func (h *H) counted(c *counter) reflect.Value {
	r := h.r
	l := []interface{}{CntJ{c}, CntJ2{c, 1}, CntT{c, "x"}, CntA{c}, CntC{c: c}, CntPJ{c, 1}, CntPT{c}, CntPA{c: c},
		CntF(func() *counter { return c }), CntS{c}, CntM{"c": c},
		struct{ CntJ2 }{CntJ2{c, 2}}, struct {
			*CntT
			Y int
		}{&CntT{c, ""}, 1}, struct{ *CntPJ }{&CntPJ{c, 3}}, struct{ X CntPJ }{CntPJ{c, 3}}}
	v := reflect.ValueOf(pick(r, l))
	switch r.Intn(8) {
	case 0, 1, 2:
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	case 3: // a key
		switch r.Intn(3) {
		case 0:
			return reflect.ValueOf(map[CntT]int{{c, "k"}: 1})
		case 1:
			return reflect.ValueOf(map[*CntPT]int{{c}: 1})
		}
		m := &sync.Map{}
		m.Store(CntT{c, "k"}, 1)
		return reflect.ValueOf(m)
	}
	return v
}

func init() {
	drivers["count"] = func(h *H) {
		r := h.r
		g := h.newGen(&profile{leaf: scalars})
		var cs []*counter
		var fs []reflect.StructField
		var vs []reflect.Value
		for n := 1 + r.Intn(4); n > 0; n-- {
			c := &counter{text: fmt.Sprintf("cnt%04dx", r.Intn(10000))}
			for _, d := range cs {
				if d.text == c.text {
					return
				}
			}
			cs = append(cs, c)
			v := h.counted(c)
			for k := r.Intn(3); k > 0; k-- {
				v = g.inPosition(v)
			}
			vs = append(vs, v)
			fs = append(fs, reflect.StructField{Name: fieldNames[len(fs)], Type: v.Type(),
				Tag: reflect.StructTag(pick(r, []string{"", "", `json:",omitempty"`, `json:",omitnil"`, `json:",omitnil,omitempty"`, `json:"-"`, `json:",string"`, `json:"A"`}))})
		}
		x := vs[0]
		if r.Intn(3) > 0 {
			p := reflect.New(reflect.StructOf(fs))
			for i, v := range vs {
				p.Elem().Field(i).Set(v)
			}
			if x = p; r.Intn(2) == 0 {
				x = p.Elem()
			}
			if r.Intn(3) == 0 {
				x = g.inPosition(x)
			}
		} else {
			cs = cs[:1]
		}
		items := someOpts(r, []string{"NoCompact", "NoHTMLEscaping", "NoStringEscaping", "UnsortedMap", "NilMapEmpty", "NilSliceEmpty", "WithContext", "RawByteSlice"}, 2)
		if r.Intn(4) == 0 {
			items = append(items, optOf(r, pick(r, []string{"AllowList", "DenyList"}), append([]string{"X", "Y"}, fieldNames[:3]...)))
		}
		v := x.Interface()
		call := marshal(v, items)
		if r.Intn(3) == 0 {
			os := options(items)
			call = func() ([]byte, error) { return jettison.AppendOpts(nil, v, os...) }
		}
		res := guard(call)
		h.emit("count", func(w *jw) {
			w.raw(`"ty":`)
			w.str(typeName(v))
			w.raw(`,"os":`)
			w.str(fmt.Sprint(items))
			w.raw(`,"g":`)
			res.write(w)
			w.raw(`,"cs":[`)
			for i, c := range cs {
				if i > 0 {
					w.raw(",")
				}
				w.raw(`{"t":`)
				w.bytes([]byte(c.text))
				fmt.Fprintf(&w.b, `,"n":%d}`, c.calls)
			}
			w.raw("]")
		})
	}
}
