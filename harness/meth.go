package main

// What the marshaling methods of the catalogue return: a function of the
// content of their receiver.

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
)

// methRate is the share (in percent) of receivers whose methods fail or
// return invalid output. It is set once per case.
var methRate uint32

// goodMeth are the valid texts MarshalJSON methods return.
var goodMeth = goodJSON

func deref(p interface{}) interface{} {
	v := reflect.ValueOf(p)
	if v.IsNil() {
		return nil
	}
	return v.Elem().Interface()
}

func content(sb *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Type() {
	case tTime, tSyncMap:
		sb.WriteString("-")
		return
	}
	if d == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%x", v.String())
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("^")
		content(sb, v.Elem(), d-1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len() && i < 6; i++ {
			content(sb, v.Index(i), d-1)
			sb.WriteString(" ")
		}
		fmt.Fprintf(sb, "%d]", v.Len())
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			content(&e, k, d-1)
			e.WriteString("=")
			content(&e, v.MapIndex(k), d-1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		sb.WriteString("m" + strings.Join(es, ","))
	case reflect.Struct:
		sb.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			content(sb, v.Field(i), d-1)
			sb.WriteString(";")
		}
		sb.WriteString(")")
	case reflect.Func, reflect.Chan:
		if v.IsNil() {
			sb.WriteString("nil")
		} else {
			sb.WriteString("F")
		}
	}
}

func contentOf(i interface{}) (string, uint32) {
	var sb strings.Builder
	content(&sb, reflect.ValueOf(i), 4)
	h := fnv.New32a()
	h.Write([]byte(sb.String()))
	return sb.String(), h.Sum32() >> 4
}

// methErr is the error of a marshaling method.
type methErr struct{ id string }

func (e *methErr) Error() string { return e.id }

func fails(name, m string, h uint32) error {
	if h%100 < methRate/2 {
		if h%2 == 0 {
			return errors.New("boom-" + name + m)
		}
		return &methErr{"own-" + name + m}
	}
	return nil
}

func invalid(h uint32) bool { return h%100 >= methRate/2 && h%100 < methRate }

func resJ(name string, r interface{}) ([]byte, error) {
	c, h := contentOf(r)
	if err := fails(name, "J", h); err != nil {
		return []byte("garbage"), err
	}
	if invalid(h) {
		return []byte(badJSON[int(h/100)%len(badJSON)]), nil
	}
	switch (h / 100) % 10 {
	case 0:
		return []byte("null"), nil
	case 1:
		return []byte(goodMeth[int(h/1000)%len(goodMeth)]), nil
	case 2:
		return []byte(fmt.Sprintf("{ \"%s\" : [ \"%s<&>\", 1 ] }", name, c)), nil
	case 3:
		return []byte(" \n null "), nil
	case 4:
		return []byte(fmt.Sprintf("\t%d\r\n", h)), nil
	}
	return []byte(fmt.Sprintf(`"J %s %s"`, name, c)), nil
}

func resNull(name string, r interface{}, null bool) ([]byte, error) {
	if null {
		return []byte("null"), nil
	}
	return resJ(name, r)
}

func resT(name string, r interface{}) ([]byte, error) {
	c, h := contentOf(r)
	if err := fails(name, "T", h); err != nil {
		return []byte("garbage"), err
	}
	switch (h / 100) % 6 {
	case 0:
		return nil, nil
	case 1:
		return []byte(strPieces[int(h/1000)%len(strPieces)] + c), nil
	case 2:
		return []byte("T\"" + c + "<\\>\n\u2028\xff"), nil
	case 3:
		return []byte(strPieces[int(h/1000)%len(strPieces)]), nil
	}
	return []byte("T " + name + " " + c), nil
}

func resA(name string, r interface{}, b []byte) ([]byte, error) {
	c, h := contentOf(r)
	if err := fails(name, "A", h); err != nil {
		return append(b, "garbage"...), err
	}
	if (h/100)%9 == 0 {
		return append(b, "null"...), nil
	}
	return append(b, fmt.Sprintf(`{"A":"%s %s"}`, name, c)...), nil
}

type ctxKey struct{}

func resC(name string, r interface{}, ctx context.Context, b []byte) ([]byte, error) {
	c, h := contentOf(r)
	if err := fails(name, "C", h); err != nil {
		return append(b, "garbage"...), err
	}
	x, _ := ctx.Value(ctxKey{}).(string)
	if ctx == context.TODO() {
		x = "todo"
	}
	return append(b, fmt.Sprintf(`["C","%s",%q,"%s"]`, name, c, x)...), nil
}
