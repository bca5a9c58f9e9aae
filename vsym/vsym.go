// Package vsym is the interface between harnesses and the symbolic executor. Under the executor its
// functions are intrinsics: they return symbolic values, constrain them, and state what must hold.
// Compiled natively (this file), they read recorded inputs instead, so that a path found by the executor
// is replayed against the real code.
package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"sync"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

type trace struct {
	Harness string  `json:"harness"`
	Inputs  []input `json:"inputs"`
	Seed    uint64  `json:"seed,omitempty"` // not 0: inputs after the recorded ones are drawn
}

type result struct {
	End     string   `json:"end"`
	Msg     string   `json:"msg"`
	Observe []string `json:"observe,omitempty"`
	Notes   []string `json:"notes,omitempty"`
	Inputs  []input  `json:"inputs,omitempty"` // all inputs, if some were drawn
}

type stop struct{ end, msg string }

var (
	cur      trace
	pos      int
	res      result
	thorough bool
	onceVals map[string]any
	scratch  string
	nfile    int
)

// next is the next recorded input, or drawn from n values if there are no more and the trace may go on.
func next(name, kind string, n int64, value func(i int64) int64) int64 {
	if pos >= len(cur.Inputs) && cur.Seed != 0 && n > 0 {
		cur.Seed += 0x9e3779b97f4a7c15
		x := cur.Seed
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		cur.Inputs = append(cur.Inputs, input{name, kind, value(int64((x ^ (x >> 31)) % uint64(n)))})
	}
	if pos >= len(cur.Inputs) {
		panic(stop{"diverged", "no recorded input for " + name})
	}
	in := cur.Inputs[pos]
	pos++
	if in.Kind != kind || in.Name != name {
		panic(stop{"diverged", fmt.Sprintf("recorded %s %s, asked for %s %s", in.Kind, in.Name, kind, name)})
	}
	return in.Val
}

// Byte is an arbitrary byte of alphabet (of all bytes if alphabet is empty).
func Byte(name, alphabet string) byte {
	if alphabet == "" {
		return byte(next(name, "byte", 256, func(i int64) int64 { return i }))
	}
	return byte(next(name, "byte", int64(len(alphabet)), func(i int64) int64 { return int64(alphabet[i]) }))
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name, "bool", 2, func(i int64) int64 { return i }) != 0 }

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int) int {
	return int(next(name, "int", int64(hi)-int64(lo)+1, func(i int64) int64 { return int64(lo) + i }))
}

// Choose is a choice among 0..n-1, explored case by case.
func Choose(name string, n int) int {
	return int(next(name, "choose", int64(n), func(i int64) int64 { return i }))
}

// Bytes is a string of n arbitrary bytes of alphabet.
func Bytes(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name, alphabet)
	}
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(stop{"assert", msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(stop{"assert", msg}) }

// Cover marks a point that must be reachable (vacuity check).
func Cover(name string) {}

// Observe records a boolean, integer or string for the comparison of executor and native runs.
func Observe(v any) {
	switch x := v.(type) {
	case nil:
		res.Observe = append(res.Observe, "nil")
	case string:
		res.Observe = append(res.Observe, strconv.Quote(x))
	default:
		res.Observe = append(res.Observe, fmt.Sprint(x))
	}
}

// Note adds f's text to the report of a native replay; the executor ignores it.
func Note(f func() string) {
	defer func() {
		if recover() != nil {
			res.Notes = append(res.Notes, "?")
		}
	}()
	res.Notes = append(res.Notes, f())
}

// Symbolic reports whether the executor is running the harness.
func Symbolic() bool { return false }

// Thorough reports whether the thorough tier was asked for.
func Thorough() bool { return thorough }

// Split explores b and !b separately.
func Split(b bool) bool { return b }

// Concrete explores each value of n separately.
func Concrete(n int) int { return n }

// Shared runs op while everything reachable from x is shared with concurrent runs of op: any write to it is a
// violation. Natively op runs in several goroutines at once (under the race detector).
func Shared(x any, op func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed any
	start := make(chan struct{})
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					failed = r
					mu.Unlock()
				}
			}()
			<-start
			op()
		}()
	}
	close(start)
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

// Once computes an input-independent value once.
func Once(key string, f func() any) any {
	if v, ok := onceVals[cur.Harness+"|"+key]; ok {
		return v
	}
	v := f()
	onceVals[cur.Harness+"|"+key] = v
	return v
}

// Memo is f(key) for a key that is not symbolic; f depends on nothing else and its result is not modified.
func Memo(key string, f func(key string) any) any {
	k := cur.Harness + "|memo|" + key
	if v, ok := onceVals[k]; ok {
		return v
	}
	v := f(key)
	onceVals[k] = v
	return v
}

// MapOrder makes the iteration order of maps with at most n entries arbitrary (0: insertion order).
func MapOrder(n int) {}

// MapOrders makes all maps iterate backwards, or up to n iterations of maps have any order (0: insertion order).
func MapOrders(n int) {}

// File creates a file with the given content and returns its path.
func File(name, content string) string {
	p := filepath.Join(scratch, fmt.Sprintf("f%d", nfile), name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(err)
	}
	return p
}

func runOne(t trace, f func()) (r result) {
	cur, pos, res = t, 0, result{}
	cur.Inputs = t.Inputs[:len(t.Inputs):len(t.Inputs)]
	nfile++
	defer func() {
		if t.Seed != 0 {
			r.Inputs = cur.Inputs
		}
	}()
	defer func() {
		if x := recover(); x != nil {
			r = res
			if s, ok := x.(stop); ok {
				r.End, r.Msg = s.end, s.msg
				return
			}
			r.End = "panic"
			func() {
				defer func() {
					if recover() != nil {
						r.Msg = "?"
					}
				}()
				r.Msg = fmt.Sprint(x)
			}()
			if os.Getenv("VSYM_STACK") != "" {
				r.Msg += "\n" + string(debug.Stack())
			}
			if len(r.Msg) > 4000 {
				r.Msg = r.Msg[:4000]
			}
		}
	}()
	f()
	r = res
	r.End = "done"
	return r
}

// Main replays the traces of the file named on the command line.
func Main(hs map[string]func()) {
	debug.SetMaxStack(256 << 20)
	scratch = os.Getenv("VSYM_SCRATCH")
	if scratch == "" {
		scratch = "."
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var in struct {
		Thorough bool    `json:"thorough"`
		Traces   []trace `json:"traces"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	thorough = in.Thorough
	real := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	enc := json.NewEncoder(real)
	onceVals = map[string]any{}
	for _, t := range in.Traces {
		f, ok := hs[t.Harness]
		if !ok {
			fmt.Fprintln(os.Stderr, "no harness", t.Harness)
			os.Exit(3)
		}
		enc.Encode(runOne(t, f))
	}
}
