package main

// A sync.Map that is changed while it is encoded: what is in it all the time is
// written, what comes and goes may be, and every value is one it had.

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/wI2L/jettison"
)

type mutEntry struct {
	k    interface{}
	alts []interface{}
	must bool
}

func mutKey(r *rand.Rand, i int) interface{} {
	switch r.Intn(4) {
	case 0:
		return i*7 + r.Intn(7)
	case 1:
		return NStr(fmt.Sprintf("n%d", i))
	case 2:
		return GivenT{fmt.Sprintf("t%d", i)}
	}
	return fmt.Sprintf("k%d", i)
}

func (h *H) mutCase() {
	r := h.r
	var es []mutEntry
	m := &sync.Map{}
	val := func() interface{} {
		switch r.Intn(7) {
		case 0:
			return r.Intn(100000)
		case 1:
			return map[string]int{"b": r.Intn(9)}
		case 2:
			return []string{"x", fmt.Sprint(r.Intn(1000))}
		case 3:
			return struct{ A, B int }{r.Intn(9), 2}
		case 4:
			return HRe{V: []interface{}{r.Intn(9), map[string]int{"z": 1, "y": 2}}}
		case 5:
			return nil
		}
		return fmt.Sprint("v", r.Intn(1000))
	}
	n := 1 + r.Intn(pick(r, []int{3, 8, 30, 120}))
	some := r.Intn(4) > 0
	for i := 0; i < n; i++ {
		e := mutEntry{k: mutKey(r, i), must: some && r.Intn(2) == 0}
		for a := 1 + r.Intn(3); a > 0; a-- {
			e.alts = append(e.alts, val())
		}
		es = append(es, e)
		if e.must || r.Intn(2) == 0 {
			m.Store(e.k, e.alts[0])
		}
	}
	var items []optItem
	if r.Intn(2) == 0 {
		items = append(items, one("UnsortedMap"))
	}
	var v interface{} = m
	depth := r.Intn(3)
	pre, suf := "", ""
	switch depth {
	case 1:
		v, pre, suf = []interface{}{1, m, 2}, "[1,", ",2]"
	case 2:
		v, pre, suf = struct {
			A int
			M *sync.Map
			Z string
		}{1, m, "z"}, `{"A":1,"M":`, `,"Z":"z"}`
	}
	var stop int32
	var wg, on sync.WaitGroup
	for k := 1 + r.Intn(3); k > 0; k-- {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		on.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; atomic.LoadInt32(&stop) == 0; n++ {
				e := es[rr.Intn(len(es))]
				if !e.must && rr.Intn(2) == 0 {
					m.Delete(e.k)
				} else {
					m.Store(e.k, e.alts[rr.Intn(len(e.alts))])
				}
				if n == 3 {
					on.Done()
				}
				if rr.Intn(10) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	on.Wait()
	k := 1 + r.Intn(3)
	rs := make([][]callRes, k)
	var we sync.WaitGroup
	for g := 0; g < k; g++ {
		we.Add(1)
		go func(g int) {
			defer we.Done()
			for i := 0; i < 4; i++ {
				if i%2 == 0 {
					rs[g] = append(rs[g], guard(func() ([]byte, error) { return jettison.AppendOpts([]byte(pre[:0]), v, options(items)...) }))
				} else {
					rs[g] = append(rs[g], guard(marshal(v, items)))
				}
			}
		}(g)
	}
	we.Wait()
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	h.emit("mut", func(w *jw) {
		w.raw(`"ty":`)
		w.str(typeName(v))
		w.raw(`,"os":`)
		w.str(fmt.Sprint(items))
		w.raw(",")
		writeOpts(w, items)
		w.raw(`,"pre":`)
		w.bytes([]byte(pre))
		w.raw(`,"suf":`)
		w.bytes([]byte(suf))
		w.raw(`,"es":[`)
		for i, e := range es {
			if i > 0 {
				w.raw(",")
			}
			fmt.Fprintf(&w.b, `{"must":%t,"vs":[`, e.must)
			for j, a := range e.alts {
				if j > 0 {
					w.raw(",")
				}
				o := &sync.Map{}
				o.Store(e.k, a)
				nd, ok := h.node(o, items)
				if !ok {
					panic("mut: " + reflect.TypeOf(a).String())
				}
				w.b.Write(nd)
			}
			w.raw("]}")
		}
		w.raw(`],"gs":[`)
		first := true
		for _, l := range rs {
			for _, x := range l {
				if !first {
					w.raw(",")
				}
				first = false
				x.write(w)
			}
		}
		w.raw("]")
	})
}

func init() { drivers["mut"] = (*H).mutCase }
