//go:build vsched

package main

// Schedules: calls made at the same time by goroutines that run one at a time,
// in a given order.  Built with a copy of the package whose operations on
// shared state are places at which another goroutine may go on.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/pprof"
	"sort"
	"vsched"

	"github.com/wI2L/jettison"
)

type schedPlan struct {
	Kids [][]int
	Goal []int
	How  string  // order: who does each of the operations; segs: who does how many
	Seq  []int   // order
	Segs [][]int // segs
}

// schedFill makes a value d levels deep.
func schedFill(v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Int8:
		v.SetInt(int64(d))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			schedFill(v.Field(i), d)
		}
	case reflect.Ptr:
		if d > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			schedFill(v.Elem(), d-1)
		}
	case reflect.Slice:
		if d > 0 {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			schedFill(v.Index(0), d-1)
		}
	case reflect.Map:
		if d > 0 {
			m := reflect.MakeMap(v.Type())
			e := reflect.New(v.Type().Elem()).Elem()
			schedFill(e, d-1)
			m.SetMapIndex(reflect.ValueOf("k"), e)
			v.Set(m)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			schedFill(v.Index(i), d)
		}
	}
}

// chooser decides by the plan; when that is used up, the first goes on.
func (p *schedPlan) chooser() func([]int, int) int {
	i, used := 0, 0
	can := func(en []int, k int) bool {
		for _, e := range en {
			if e == k {
				return true
			}
		}
		return false
	}
	return func(en []int, running int) int {
		if p.How == "order" {
			for i < len(p.Seq) {
				k := p.Seq[i] - 1
				i++
				if can(en, k) {
					return k
				}
			}
		} else {
			for i < len(p.Segs) {
				s := p.Segs[i]
				if used < s[1] && can(en, s[0]-1) {
					used++
					return s[0] - 1
				}
				i, used = i+1, 0
			}
		}
		if can(en, running) {
			return running
		}
		return en[0]
	}
}

func stuck(what string) {
	fmt.Fprintln(os.Stderr, "DEADLOCK: "+what)
	pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
	os.Exit(97)
}

func (h *H) planSched(l planLine) {
	var p schedPlan
	l.into(&p)
	ts := schedTypes[h.id]
	var vs []interface{}
	for k, g := range p.Goal {
		v := reflect.New(reflect.TypeOf(ts[g-1]).Elem())
		schedFill(v.Elem(), 2)
		switch (h.id/3 + k*(h.id%3)) % 4 { // the same and different ways
		case 0, 1:
			vs = append(vs, v.Elem().Interface())
		case 2:
			vs = append(vs, v.Interface())
		default:
			vs = append(vs, map[string]interface{}{"v": v.Elem().Interface(), "p": v.Interface()})
		}
	}
	rs := make([][2]callRes, len(vs))
	var fs []func()
	for k := range vs {
		k := k
		fs = append(fs, func() {
			rs[k][0] = guard(func() ([]byte, error) { return jettison.Marshal(vs[k]) })
			rs[k][1] = guard(func() ([]byte, error) { return jettison.Append(nil, vs[(k+1)%len(vs)]) })
		})
	}
	var nodes [][]byte
	for _, v := range vs {
		n, ok := h.node(v, nil)
		if !ok {
			return
		}
		nodes = append(nodes, n)
	}
	if w := vsched.Run(fs, false, p.chooser()); w != "" {
		stuck(w)
	}
	h.emit("many", func(w *jw) {
		w.raw(`"ty":`)
		w.str(typeName(vs[0]))
		w.raw(`,"os":"[]","strict":true,`)
		writeOpts(w, nil)
		w.raw(`,"vs":[`)
		for i := range vs {
			if i > 0 {
				w.raw(",")
			}
			w.b.Write(nodes[i])
			w.raw(",")
			w.b.Write(nodes[(i+1)%len(vs)])
		}
		w.raw(`],"gs":[`)
		for i, r := range rs {
			if i > 0 {
				w.raw(",")
			}
			r[0].write(w)
			w.raw(",")
			r[1].write(w)
		}
		w.raw("]")
	})
}

// planPairs makes two calls at the same time: the first is stopped after each
// of its statements, and goes on when the second has ended; or the second is
// stopped too, and ends last.  A few different results are to be had at most.
func (h *H) planPairs(l planLine) {
	var p struct{ A, B, Twice int }
	l.into(&p)
	vs := []interface{}{pairValue(p.A, 0), pairValue(p.B, 1), map[string]string{"m": "1", "l": "2"}}
	got := make([]map[string]callRes, len(vs))
	for i := range got {
		got[i] = map[string]callRes{}
	}
	note := func(i int, r callRes) {
		if !r.ok {
			r.b = nil
		}
		got[i][fmt.Sprintf("%v %s %+v", r.ok, r.b, r)] = r
	}
	const all = 1 << 30
	can := func(en []int, k int) bool {
		for _, e := range en {
			if e == k {
				return true
			}
		}
		return false
	}
	// play runs the calls in these pieces (-1: how many it has is counted)
	play := func(segs [][]int) (n [2]int) {
		var rs [2][2]callRes
		fs := make([]func(), 2)
		for w := range fs {
			w := w
			fs[w] = func() {
				if (p.A+p.B)%3 == 0 {
					rs[w][0] = guard(func() ([]byte, error) { return jettison.Append(make([]byte, 0, 16), vs[w]) })
				} else {
					rs[w][0] = guard(func() ([]byte, error) { return jettison.Marshal(vs[w]) })
				}
				if !rs[w][0].ok { // what a failed call leaves behind
					rs[w][1] = guard(func() ([]byte, error) { return jettison.Marshal(vs[2]) })
				}
			}
		}
		i := 0
		if w := vsched.Run(fs, true, func(en []int, running int) int {
			for i < len(segs) {
				s := segs[i]
				if s[1] < 0 { // count
					if can(en, s[0]-1) {
						n[s[0]-1]++
						return s[0] - 1
					}
				}
				i++
				if s[1] > 0 && can(en, s[0]-1) {
					vsched.Quiet(int64(s[1] - 1))
					return s[0] - 1
				}
			}
			vsched.Quiet(all)
			if can(en, running) {
				return running
			}
			return en[0]
		}); w != "" {
			stuck(w)
		}
		for w := range rs {
			note(w, rs[w][0])
			if !rs[w][0].ok {
				note(2, rs[w][1])
			}
		}
		return
	}
	var n [2]int
	for w := range n {
		n[w] = play([][]int{{w + 1, -1}})[w]
	}
	step := 1 + n[0]/300
	for k := 1 + h.r.Intn(step); k <= n[0]; k += step {
		play([][]int{{1, k}, {2, all}})
	}
	for i := 0; i < p.Twice; i++ {
		play([][]int{{1, 1 + h.r.Intn(n[0])}, {2, 1 + h.r.Intn(n[1])}, {1, all}})
	}
	// every result there was is judged
	var nodes, res [][]byte
	for i, v := range vs {
		nd, ok := h.node(v, nil)
		if !ok {
			return
		}
		var keys []string
		for k := range got[i] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			var w jw
			got[i][k].write(&w)
			nodes, res = append(nodes, nd), append(res, append([]byte(nil), w.b.Bytes()...))
		}
	}
	h.emit("many", func(w *jw) {
		w.raw(`"ty":`)
		w.str(fmt.Sprintf("shapes %d and %d, %d and %d steps", p.A, p.B, n[0], n[1]))
		w.raw(`,"os":"[]","strict":true,`)
		writeOpts(w, nil)
		w.raw(`,"vs":[`)
		w.b.Write(bytes.Join(nodes, []byte(",")))
		w.raw(`],"gs":[`)
		w.b.Write(bytes.Join(res, []byte(",")))
		w.raw("]")
	})
}

// inTurns runs the calls of each case at the same time, one statement or
// operation at a time; where others go on is drawn at random.
func (h *H) inTurns(cs []*hCase, order int) {
	for _, c := range cs {
		r := rand.New(rand.NewSource(*flagSeed*1000003 + int64(order)*7919 + int64(c.id)))
		h.beat(c.id)
		n := 2 + r.Intn(2)
		type res struct {
			i int
			r callRes
		}
		all := make([][]res, n)
		var fs []func()
		for w := 0; w < n; w++ {
			w := w
			var plan []int
			for i := range c.calls {
				if r.Intn(2) == 0 {
					plan = append(plan, i)
				}
			}
			r.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
			if len(plan) > 4 {
				plan = plan[:4]
			}
			seed := r.Int63()
			fs = append(fs, func() {
				rr := rand.New(rand.NewSource(seed))
				for _, i := range plan {
					x := res{i, c.once(i, rr, c.calls[i].pool != nil && rr.Intn(2) == 0)}
					b := x.r.b
					if !x.r.ok {
						b = nil
					}
					x.r.b = append([]byte(nil), b...)
					vsched.Step()
					if rr.Intn(2) == 0 {
						scribble(b)
					} else if string(b) != string(x.r.b) {
						x.r.x = "changed"
					}
					all[w] = append(all[w], x)
				}
			})
		}
		// few changes, at places drawn beforehand, or many
		fine := r.Intn(2) == 0
		max := 300
		if fine {
			max = pick(r, []int{200, 2000, 20000})
		}
		often := r.Intn(4) == 0
		left := 1 + r.Intn(5)
		choose := func(en []int, running int) int {
			switch {
			case often:
				vsched.Quiet(int64(r.Intn(12)))
			case left == 0:
				vsched.Quiet(100000)
			default:
				left--
				vsched.Quiet(int64(r.Intn(max)))
			}
			return pick(r, en)
		}
		if w := vsched.Run(fs, fine, choose); w != "" {
			stuck(w)
		}
		for _, l := range all {
			for _, x := range l {
				c.rec[x.i].r = append(c.rec[x.i].r, x.r)
				if x.r.ok && x.r.x == "changed" {
					c.rec[x.i].kept = false
				}
			}
		}
		for v := range c.vals {
			if deepText(c.vals[v]) != c.desc[v] {
				for i := range c.calls {
					if c.calls[i].v == v {
						c.rec[i].pure = false
					}
				}
			}
		}
	}
}

func init() {
	planSched = (*H).planSched
	planPairs = (*H).planPairs
	inTurns = (*H).inTurns
}
