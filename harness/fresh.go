package main

// Histories from a fresh process (C19): the calls of a line of the plan are
// made by a new process each time, which has seen nothing before.  What each
// call gives must be what it gives when it is the only one, and what the
// specification says.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
)

type fS struct {
	F MStPJ
	N *fS            `json:",omitempty"`
	Q string         `json:",string"`
	M map[string]int `json:",omitempty"`
	T MIntPT
}
type fA struct {
	B *fB `json:",omitempty"`
	S fS
	A [1]MStrPA
}
type fB struct {
	A []fA
	M map[string]fA
}
type fE struct {
	*fS
	X int
	M MStPJ `json:"F2"`
}
type fList struct {
	Next *fList
	V    int
}

type freshCall struct {
	v     func() interface{}
	items []optItem
	app   int // Append to a slice with this room
}

func sameTwo(n int) interface{} {
	switch n {
	case 0:
		type fT struct{ A, B int }
		return fT{1, 2}
	case 1:
		type fT struct {
			B string `json:",string"`
			C *MStPJ
		}
		return &fT{"x", &MStPJ{}}
	case 2:
		type fT map[string]*int
		return fT{"k": nil}
	}
	type fT []string
	return fT{"s"}
}

func freshS(n int) fS {
	s := fS{Q: strings.Repeat("a<", n), M: map[string]int{"k": n, "b": 1}, T: MIntPT(n)}
	if n > 1 {
		t := freshS(n - 1)
		s.N = &t
	}
	return s
}

// freshCalls are the calls that MC_History numbers.
var freshCalls = []freshCall{
	{v: func() interface{} { return freshS(2) }},
	{v: func() interface{} { s := freshS(2); return &s }},
	{v: func() interface{} { return map[string]fS{"k": freshS(1), "a": {}} }},
	{v: func() interface{} { return fA{B: &fB{A: []fA{{S: freshS(1)}}}, S: freshS(1)} }},
	{v: func() interface{} { return &fB{M: map[string]fA{"z": {S: freshS(1)}, "b": {}}} }},
	{v: func() interface{} { s := freshS(1); return []interface{}{s, &s, [1]fS{s}, []fS{s}, fE{}} }},
	{v: func() interface{} { return sameTwo(0) }},
	{v: func() interface{} { return sameTwo(1) }},
	{v: func() interface{} { return []interface{}{sameTwo(2), sameTwo(3)} }},
	{v: func() interface{} { // fails with several buffers in use
		return map[string]interface{}{"a": strings.Repeat("x", 5000), "b": map[string]interface{}{"c": freshS(1), "d": make(chan int)}}
	}},
	{v: func() interface{} { // panics with several buffers in use
		return map[string]interface{}{"a": map[string]interface{}{"b": &HPanicA{1}}}
	}},
	{v: func() interface{} { return pairValue(3, 0) }},
	{v: func() interface{} { return pairValue(7, 1) }},
	{v: func() interface{} { return pairValue(5, 0) }},
	{v: func() interface{} { return freshS(2) }, items: []optItem{{n: "DenyList", l: []string{"F", "M"}}, {n: "NoHTMLEscaping"}}},
	{v: func() interface{} { s := freshS(1); return &s }, items: []optItem{{n: "AllowList", l: []string{"Q", "T"}}}, app: 3},
	{v: func() interface{} { return map[string]interface{}{"k": pairQuoted{"<", "1"}} }, items: []optItem{{n: "UnsortedMap"}, {n: "NoCompact"}}},
	{v: func() interface{} { return []interface{}{strings.Repeat("y\n", 5000), HBig{9000}} }, app: 10},
	{v: func() interface{} { s := freshS(1); return []interface{}{fE{fS: &s}, &fE{fS: &s}, fE{}} }},
	{v: func() interface{} { // a cycle: an error, far down
		l := &fList{V: 1}
		l.Next = &fList{l, 2}
		return map[string]interface{}{"l": l}
	}},
	{v: func() interface{} { // deep, but no cycle
		var l *fList
		for i := 0; i < 1100; i++ {
			l = &fList{l, i}
		}
		return []*fList{l, l}
	}},
	{v: func() interface{} { m := &sync.Map{}; m.Store("p", HPanic{1}); return []interface{}{m} }},
	{v: func() interface{} {
		return []interface{}{time.Unix(5, 5).UTC(), time.Duration(1500), json.RawMessage(" [ 1 ]"), json.Number("x")}
	}},
	{v: func() interface{} {
		return []interface{}{time.Unix(5, 5).UTC(), time.Duration(1500), json.RawMessage(" [ 1 ]"), json.Number("x")}
	}, items: []optItem{{n: "UnixTime"}, {n: "DurationFormat", i: 5}, {n: "NoNumberValidation"}}},
}

type freshRes struct {
	R    json.RawMessage // callRes.write
	T    json.RawMessage // callRes.writeText
	Kept bool
	Pure bool
}

// runFresh makes the calls, in the child.
func runFresh(calls string) {
	var rs []freshRes
	type kept struct{ b, was []byte }
	var ks []kept
	for _, f := range strings.Split(calls, ",") {
		n, err := strconv.Atoi(f)
		check(err)
		c := freshCalls[n-1]
		v := c.v()
		var was string
		if n != 20 { // cyclic
			was = deepText(v)
		}
		os := options(c.items)
		r := guard(func() ([]byte, error) {
			if c.app > 0 {
				return jettison.AppendOpts(make([]byte, 0, c.app), v, os...)
			}
			return jettison.MarshalOpts(v, os...)
		})
		if !r.ok {
			r.b = nil
		}
		ks = append(ks, kept{r.b, append([]byte(nil), r.b...)})
		var w, t jw
		r.write(&w)
		r.writeText(&t)
		rs = append(rs, freshRes{R: append([]byte(nil), w.b.Bytes()...), T: append([]byte(nil), t.b.Bytes()...), Kept: true, Pure: n == 20 || was == deepText(v)})
	}
	for i, k := range ks {
		rs[i].Kept = bytes.Equal(k.b, k.was)
	}
	out, err := json.Marshal(rs)
	check(err)
	os.Stdout.Write(out)
}

var freshAlone = map[int]freshRes{}
var freshNodes = map[int][]byte{}
var freshSeen = map[string]bool{}

func (h *H) freshRun(calls []int) []freshRes {
	var l []string
	for _, c := range calls {
		l = append(l, strconv.Itoa(c))
	}
	cmd := exec.Command(os.Args[0], "-calls", strings.Join(l, ","))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	var rs []freshRes
	if err == nil {
		err = json.Unmarshal(out, &rs)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "the calls %v in a fresh process: %v\n%s", calls, err, stderr.Bytes())
		os.Exit(96)
	}
	return rs
}

func (h *H) planFresh(l planLine) {
	var hs [][]int
	check(json.Unmarshal(l.S, &hs))
	for _, calls := range hs {
		rs := h.freshRun(calls)
		for i, n := range calls {
			c := freshCalls[n-1]
			if _, ok := freshAlone[n]; !ok {
				freshAlone[n] = h.freshRun([]int{n})[0]
			}
			base, r := freshAlone[n], rs[i]
			key := fmt.Sprint(n, string(r.R), r.Kept, r.Pure)
			if freshSeen[key] {
				continue
			}
			freshSeen[key] = true
			v := c.v()
			h.emit("hist", func(w *jw) {
				w.raw(`"ty":`)
				w.str(typeName(v))
				w.raw(`,"os":`)
				w.str(fmt.Sprint(c.items, " calls ", calls, " the ", i+1))
				fmt.Fprintf(&w.b, `,"exact":true,"kept":[%v],"pure":[%v],"rs":[%s,%s]`, r.Kept, r.Pure, base.T, r.T)
			})
			if n == 20 || n == 21 { // not to be described
				continue
			}
			node, ok := freshNodes[n]
			if !ok {
				node, _ = h.node(v, c.items)
				freshNodes[n] = node
			}
			if node == nil {
				continue
			}
			h.emit("strict", func(w *jw) {
				w.raw(`"ty":`)
				w.str(typeName(v))
				w.raw(`,"os":`)
				w.str(fmt.Sprint(c.items, " calls ", calls, " the ", i+1))
				w.raw(",")
				writeOpts(w, c.items)
				writeNode(w, node)
				fmt.Fprintf(&w.b, `,"g":%s`, r.R)
			})
		}
	}
}
