// Command verifharness drives jettison with the inputs of one property and
// records what it did: types.json (the Go types involved) and events.ndjson
// (one record per call or group of calls), which TLC judges against the
// specification in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"github.com/wI2L/jettison"
)

var (
	flagProp  = flag.String("prop", "", "property")
	flagSeed  = flag.Int64("seed", 1, "seed")
	flagFrom  = flag.Int("from", 0, "first case")
	flagN     = flag.Int("n", 100, "number of cases")
	flagOut   = flag.String("out", ".", "output directory")
	flagPlan  = flag.String("plan", "", "cases generated by TLC (ndjson)")
	flagOrder = flag.Int("order", 0, "order of the calls (C19, C20)")
	flagCalls = flag.String("calls", "", "make these calls (fresh.go) and print what they give")
	flagBatch = flag.Int("batch", 0, "events per file (0: one file)")
)

type H struct {
	r      *rand.Rand
	id     int
	tt     *typeTab
	out    *bufio.Writer
	prop   string
	seq    int // events of this case
	events int
	skips  map[string]int
	desc   string // description of the case, for replay files

	journal *os.File
	beats   chan int
}

type driver struct {
	name string
	run  func(h *H)
}

var drivers = map[string]func(h *H){}

// emit writes one event.
func (h *H) emit(kind string, f func(w *jw)) {
	w := &jw{}
	fmt.Fprintf(&w.b, `{"id":%d,"seq":%d,"kind":"%s",`, h.id, h.seq, kind)
	f(w)
	w.raw("}\n")
	h.out.Write(w.b.Bytes())
	h.seq++
	h.events++
}

func (h *H) skip(why string) { h.skips[why]++ }

// node describes v for a call with the given options.
func (h *H) node(v interface{}, items []optItem) ([]byte, bool) {
	n, err := describe(h.tt, v, layouts(items), ctxs)
	if err != nil {
		h.skip(err.Error())
		return nil, false
	}
	return n, true
}

func typeName(v interface{}) string {
	if v == nil {
		return "nil"
	}
	s := reflect.TypeOf(v).String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// enc performs one call and emits it; extra writes more members.
func (h *H) enc(kind string, v interface{}, items []optItem, call func() ([]byte, error), extra func(w *jw)) bool {
	n, ok := h.node(v, items)
	if !ok {
		return false
	}
	h.emitEnc(kind, v, items, n, guard(call), extra)
	return true
}

func (h *H) emitEnc(kind string, v interface{}, items []optItem, n []byte, r callRes, extra func(w *jw)) {
	h.emit(kind, func(w *jw) {
		w.raw(`"ty":`)
		w.str(typeName(v))
		w.raw(`,"os":`)
		w.str(fmt.Sprint(items))
		w.raw(",")
		writeOpts(w, items)
		writeNode(w, n)
		w.raw(`,"g":`)
		r.write(w)
		if extra != nil {
			extra(w)
		}
	})
}

// marshal calls Marshal or MarshalOpts.
func marshal(v interface{}, items []optItem) func() ([]byte, error) {
	if len(items) == 0 {
		return func() ([]byte, error) { return jettison.Marshal(v) }
	}
	os := options(items)
	return func() ([]byte, error) { return jettison.MarshalOpts(v, os...) }
}

func caseRand(seed int64, prop string, id int) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s/%d", seed, prop, id)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

func main() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetTraceback("all")
	if *flagCalls != "" {
		runFresh(*flagCalls)
		return
	}
	run, ok := drivers[*flagProp]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		os.Exit(3)
	}
	f, err := os.Create(filepath.Join(*flagOut, "events.ndjson"))
	check(err)
	h := &H{tt: newTypeTab(), out: bufio.NewWriterSize(f, 1<<16), prop: *flagProp, skips: map[string]int{}}
	j, err := os.Create(filepath.Join(*flagOut, "journal"))
	check(err)
	beat := make(chan int, 1)
	h.journal, h.beats = j, beat
	go watchdog(beat)
	for id := *flagFrom; id < *flagFrom+*flagN; id++ {
		h.id, h.seq = id, 0
		h.r = caseRand(*flagSeed, *flagProp, id)
		methRate = 0
		_, err = j.WriteAt([]byte(fmt.Sprintf("%-12d\n", id)), 0)
		check(err)
		select {
		case beat <- id:
		default:
		}
		run(h)
		check(h.out.Flush())
	}
	check(f.Close())
	_, err = j.WriteAt([]byte(fmt.Sprintf("%-12s\n", "done")), 0)
	check(err)
	w := &jw{}
	h.tt.write(w)
	check(os.WriteFile(filepath.Join(*flagOut, "types.json"), w.b.Bytes(), 0o666))
	st, _ := json.Marshal(map[string]interface{}{"cases": *flagN, "events": h.events, "types": len(h.tt.list), "skips": h.skips})
	check(os.WriteFile(filepath.Join(*flagOut, "stats.json"), st, 0o666))
}

// watchdog ends the program when a case takes too long.
func watchdog(beat chan int) {
	last := time.Now()
	for {
		select {
		case <-beat:
			last = time.Now()
		case <-time.After(time.Second):
		}
		if rss() > 4<<30 {
			fmt.Fprintln(os.Stderr, "MEMORY: the program uses more than 4 GB")
			pprof.Lookup("goroutine").WriteTo(os.Stderr, 2)
			os.Exit(98)
		}
		if time.Since(last) > 60*time.Second {
			fmt.Fprintln(os.Stderr, "HANG: a call did not return")
			pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
			os.Exit(97)
		}
	}
}

// rss is the memory the process uses.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	var size, res int64
	if err == nil {
		fmt.Sscan(string(b), &size, &res)
	}
	return res * int64(os.Getpagesize())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func kindsOf(s string) string { return strings.ReplaceAll(s, " ", "") }

// writeNode writes the value, flattened when it is too deep for TLC's reader.
func writeNode(w *jw, n []byte) {
	d, max := 0, 0
	for _, c := range n {
		switch c {
		case '{', '[':
			if d++; d > max {
				max = d
			}
		case '}', ']':
			d--
		}
	}
	if max < 200 {
		w.raw(`,"deep":false,"v":`)
		w.b.Write(n)
		return
	}
	var x interface{}
	check(json.Unmarshal(n, &x))
	var nodes []map[string]interface{}
	var flat func(m map[string]interface{}) int
	list := func(l interface{}) (r []int) {
		r = []int{}
		for _, e := range l.([]interface{}) {
			if m, ok := e.(map[string]interface{}); ok {
				r = append(r, flat(m))
			} else {
				r = append(r, 0)
			}
		}
		return
	}
	flat = func(m map[string]interface{}) int {
		z := ""
		switch e := m["e"].(type) {
		case map[string]interface{}:
			m["e"], z = flat(e), "e1"
		case []interface{}:
			m["e"], z = list(e), "es"
		}
		if f, ok := m["f"]; ok {
			m["f"], z = list(f), "fs"
		}
		if v, ok := m["v"]; ok {
			m["k"], m["v"], z = list(m["k"]), list(v), "kv"
		}
		m["z"] = z
		nodes = append(nodes, m)
		return len(nodes)
	}
	flat(x.(map[string]interface{}))
	b, err := json.Marshal(nodes)
	check(err)
	w.raw(`,"deep":true,"nodes":`)
	w.b.Write(b)
}
