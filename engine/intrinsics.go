package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

const vsymPath = modPath + "/internal/verif/vsym"

// concrete reports whether all the arguments are concrete scalars/strings.
func concreteArgs(args []Value) bool {
	for _, a := range args {
		switch a.(type) {
		case bool, int64, string, float64:
		default:
			return false
		}
	}
	return true
}

func hostStr(f func(ip *Interp, a []Value) Value) intrinsic {
	return func(ip *Interp, fn *finfo, args []Value) (Value, bool) {
		if !concreteArgs(args) {
			return nil, false
		}
		return f(ip, args), true
	}
}

func always(f func(ip *Interp, a []Value) Value) intrinsic {
	return func(ip *Interp, fn *finfo, args []Value) (Value, bool) {
		return f(ip, args), true
	}
}

func s0(a []Value) string { return a[0].(string) }
func s1(a []Value) string { return a[1].(string) }
func s2(a []Value) string { return a[2].(string) }

func strSliceVal(ss []string) Value {
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

func buildIntrinsics() {
	nop := always(func(ip *Interp, a []Value) Value { return nil })
	intrinsics = map[string]intrinsic{
		// strings: concrete fast paths (otherwise the source is interpreted)
		"strings.Count":                hostStr(func(ip *Interp, a []Value) Value { return int64(strings.Count(s0(a), s1(a))) }),
		"strings.Index":                strIndex,
		"strings.LastIndex":            strLastIndex,
		"strings.IndexByte":            strIndexByte,
		"strings.Contains":             hostStr(func(ip *Interp, a []Value) Value { return strings.Contains(s0(a), s1(a)) }),
		"strings.HasPrefix":            hostStr(func(ip *Interp, a []Value) Value { return strings.HasPrefix(s0(a), s1(a)) }),
		"strings.HasSuffix":            hostStr(func(ip *Interp, a []Value) Value { return strings.HasSuffix(s0(a), s1(a)) }),
		"strings.TrimSpace":            hostStr(func(ip *Interp, a []Value) Value { return strings.TrimSpace(s0(a)) }),
		"strings.Repeat":               hostStr(func(ip *Interp, a []Value) Value { return repeat(ip, s0(a), a[1].(int64)) }),
		"strings.ToUpper":              hostStr(func(ip *Interp, a []Value) Value { return strings.ToUpper(s0(a)) }),
		"strings.ToLower":              hostStr(func(ip *Interp, a []Value) Value { return strings.ToLower(s0(a)) }),
		"strings.Split":                hostStr(func(ip *Interp, a []Value) Value { return strSliceVal(strings.Split(s0(a), s1(a))) }),
		"strings.Fields":               hostStr(func(ip *Interp, a []Value) Value { return strSliceVal(strings.Fields(s0(a))) }),
		"strings.ReplaceAll":           hostStr(func(ip *Interp, a []Value) Value { return strings.ReplaceAll(s0(a), s1(a), s2(a)) }),
		"strings.Replace":              hostStr(func(ip *Interp, a []Value) Value { return strings.Replace(s0(a), s1(a), s2(a), int(a[3].(int64))) }),
		"strings.TrimLeft":             hostStr(func(ip *Interp, a []Value) Value { return strings.TrimLeft(s0(a), s1(a)) }),
		"strings.TrimRight":            hostStr(func(ip *Interp, a []Value) Value { return strings.TrimRight(s0(a), s1(a)) }),
		"strings.Trim":                 hostStr(func(ip *Interp, a []Value) Value { return strings.Trim(s0(a), s1(a)) }),
		"strings.EqualFold":            hostStr(func(ip *Interp, a []Value) Value { return strings.EqualFold(s0(a), s1(a)) }),
		"internal/stringslite.Clone":   always(func(ip *Interp, a []Value) Value { return a[0] }),
		"strings.Clone":                always(func(ip *Interp, a []Value) Value { return a[0] }),
		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).String":    sbString,
		"(*strings.Builder).grow":      nil,

		"strconv.Itoa":      hostStr(func(ip *Interp, a []Value) Value { return strconv.FormatInt(a[0].(int64), 10) }),
		"strconv.FormatInt": hostStr(func(ip *Interp, a []Value) Value { return strconv.FormatInt(a[0].(int64), int(a[1].(int64))) }),
		"strconv.Quote":     hostStr(func(ip *Interp, a []Value) Value { return strconv.Quote(s0(a)) }),
		"strconv.FormatFloat": hostStr(func(ip *Interp, a []Value) Value {
			return strconv.FormatFloat(a[0].(float64), byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		}),

		"internal/bytealg.IndexByteString":     strIndexByte,
		"internal/bytealg.LastIndexByteString": strLastIndexByte,
		"internal/bytealg.CountString":         strCountByte,
		"internal/bytealg.IndexByte":           sliceIndexByte,
		"internal/bytealg.Equal":               always(func(ip *Interp, a []Value) Value { return ip.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }),
		"bytes.Equal":                          always(func(ip *Interp, a []Value) Value { return ip.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }),
		"internal/bytealg.MakeNoZero": always(func(ip *Interp, a []Value) Value {
			return ip.makeSlice(types.Typ[types.Uint8], int(ip.intVal(a[0])), int(ip.intVal(a[0])))
		}),
		"internal/stringslite.Index":     strIndex,
		"internal/stringslite.IndexByte": strIndexByte,
		"internal/bytealg.CompareString": strCompare,
		"internal/bytealg.Compare": always(func(ip *Interp, a []Value) Value {
			v, _ := strCompare(ip, nil, []Value{mkStr(a[0].(Slice)), mkStr(a[1].(Slice))})
			return v
		}),
		"strings.Compare":              strCompare,
		"internal/bytealg.IndexString": strIndex,

		"unicode/utf8.RuneCountInString": hostStr(func(ip *Interp, a []Value) Value { return int64(utf8.RuneCountInString(s0(a))) }),
		"unicode/utf8.ValidString":       hostStr(func(ip *Interp, a []Value) Value { return utf8.ValidString(s0(a)) }),
		"unicode/utf8.DecodeRuneInString": hostStr(func(ip *Interp, a []Value) Value {
			r, n := utf8.DecodeRuneInString(s0(a))
			return Tuple{int64(r), int64(n)}
		}),
		"unicode.IsUpper":  uniPred(unicode.IsUpper),
		"unicode.IsLower":  uniPred(unicode.IsLower),
		"unicode.IsLetter": uniPred(unicode.IsLetter),
		"unicode.IsDigit":  uniPred(unicode.IsDigit),
		"unicode.IsNumber": uniPred(unicode.IsNumber),
		"unicode.IsSpace":  uniPred(unicode.IsSpace),
		"unicode.IsPrint":  uniPred(unicode.IsPrint),
		"unicode.IsPunct":  uniPred(unicode.IsPunct),
		"strconv.IsPrint":  uniPred(strconv.IsPrint),
		"unicode.ToUpper":  uniMap(unicode.ToUpper),
		"unicode.ToLower":  uniMap(unicode.ToLower),
		"unicode.ToTitle":  uniMap(unicode.ToTitle),

		"math/bits.Len64":           always(func(ip *Interp, a []Value) Value { return int64(bits.Len64(uint64(ip.intVal(a[0])))) }),
		"math/bits.Len":             always(func(ip *Interp, a []Value) Value { return int64(bits.Len64(uint64(ip.intVal(a[0])))) }),
		"math/bits.TrailingZeros64": always(func(ip *Interp, a []Value) Value { return int64(bits.TrailingZeros64(uint64(ip.intVal(a[0])))) }),
		"math.Float64bits":          hostStr(func(ip *Interp, a []Value) Value { return int64(math.Float64bits(a[0].(float64))) }),

		"sort.Slice":       sortSlice("pdqsort_func"),
		"sort.SliceStable": sortSlice("stable_func"),

		"errors.Is": errorsIs,
		"errors.As": nil,

		"math/rand.Int31":  randDraw,
		"math/rand.Int":    randDraw,
		"math/rand.Int63":  randDraw,
		"math/rand.Uint32": randDraw,
		"math/rand.Int31n": randDrawN,
		"math/rand.Intn":   randDrawN,
		"math/rand.Int63n": randDrawN,

		"(*sync.Mutex).Lock":      lock,
		"(*sync.Mutex).Unlock":    unlock,
		"(*sync.Mutex).TryLock":   always(func(ip *Interp, a []Value) Value { ip.locked++; return true }),
		"(*sync.RWMutex).Lock":    lock,
		"(*sync.RWMutex).Unlock":  unlock,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do":         onceDo,
		"(*sync.Pool).Get":        poolGet,
		"(*sync.Pool).Put":        nop,
		"(*sync.WaitGroup).Add":   nop,
		"(*sync.WaitGroup).Done":  nop,
		"(*sync.WaitGroup).Wait":  nop,

		"(*sync.Map).Load": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			if i := ip.mapFind(m, a[0]); i >= 0 {
				return Tuple{m.ents[i].v, true}
			}
			return Tuple{Iface{}, false}
		}),
		"(*sync.Map).Store": syncMap(func(ip *Interp, m *Map, a []Value) Value { ip.mapSet(m, nil, a[0], a[1]); return nil }),
		"(*sync.Map).LoadOrStore": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			if i := ip.mapFind(m, a[0]); i >= 0 {
				return Tuple{m.ents[i].v, true}
			}
			ip.mapSet(m, nil, a[0], a[1])
			return Tuple{a[1], false}
		}),
		"(*sync.Map).LoadAndDelete": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			if i := ip.mapFind(m, a[0]); i >= 0 {
				v := m.ents[i].v
				ip.mapDelete(m, a[0])
				return Tuple{v, true}
			}
			return Tuple{Iface{}, false}
		}),
		"(*sync.Map).Swap": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			r := Tuple{Iface{}, false}
			if i := ip.mapFind(m, a[0]); i >= 0 {
				r = Tuple{m.ents[i].v, true}
			}
			ip.mapSet(m, nil, a[0], a[1])
			return r
		}),
		"(*sync.Map).CompareAndSwap": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			i := ip.mapFind(m, a[0])
			if i < 0 || !ip.boolVal(ip.eqVal(m.ents[i].v, a[1])) {
				return false
			}
			ip.mapSet(m, nil, a[0], a[2])
			return true
		}),
		"(*sync.Map).Delete": syncMap(func(ip *Interp, m *Map, a []Value) Value { ip.mapDelete(m, a[0]); return nil }),
		"(*sync.Map).Clear": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			for _, e := range append([]mapEnt(nil), m.ents...) {
				if e.live {
					ip.mapDelete(m, e.k)
				}
			}
			return nil
		}),
		"(*sync.Map).Range": syncMap(func(ip *Interp, m *Map, a []Value) Value {
			for _, e := range append([]mapEnt(nil), m.ents...) {
				if e.live && !ip.boolVal(ip.callClosure(a[0].(*Closure), []Value{e.k, e.v})) {
					break
				}
			}
			return nil
		}),

		"(*sync/atomic.Int32).Load":  atomicLoad,
		"(*sync/atomic.Int64).Load":  atomicLoad,
		"(*sync/atomic.Uint32).Load": atomicLoad,
		"(*sync/atomic.Uint64).Load": atomicLoad,
		"(*sync/atomic.Value).Load":  atomicLoad,
		"(*sync/atomic.Bool).Load":   always(func(ip *Interp, a []Value) Value { return (*atomicField(a[0])).(int64) != 0 }),
		"(*sync/atomic.Bool).Store": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			n := int64(0)
			if ip.boolVal(a[1]) {
				n = 1
			}
			return atomicStore(ip, fn, []Value{a[0], n})
		},
		"(*sync/atomic.Pointer[T]).Load": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			if v, ok := (*atomicField(a[0])).(*Value); ok {
				return v, true
			}
			return nilPtr, true
		},
		"(*sync/atomic.Pointer[T]).Store": atomicStore,
		"(*sync/atomic.Int32).Store":      atomicStore,
		"(*sync/atomic.Int64).Store":      atomicStore,
		"(*sync/atomic.Uint32).Store":     atomicStore,
		"(*sync/atomic.Uint64).Store":     atomicStore,
		"(*sync/atomic.Value).Store":      atomicStore,
		"(*sync/atomic.Uint32).Add":       atomicAdd,
		"(*sync/atomic.Int32).Add":        atomicAdd,
		"(*sync/atomic.Int64).Add":        atomicAdd,
		"(*sync/atomic.Uint64).Add":       atomicAdd,
		"sync/atomic.AddInt64":            atomicAddP,
		"sync/atomic.AddInt32":            atomicAddP,
		"sync/atomic.LoadInt64":           atomicLoadP,
		"sync/atomic.LoadInt32":           atomicLoadP,

		"reflect.TypeOf": reflectTypeOf,
		"reflect.DeepEqual": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			return ip.deepEqual(a[0], a[1], map[[2]*Value]bool{}), true
		},
		"internal/reflectlite.TypeOf":        reflectTypeOf,
		"(runtime.errorString).Error":        always(func(ip *Interp, a []Value) Value { return a[0] }),
		"(runtime.errorString).RuntimeError": nop,
		"runtime.KeepAlive":                  nop,
		"internal/abi.NoEscape":              always(func(ip *Interp, a []Value) Value { return a[0] }),
		"internal/abi.Escape":                always(func(ip *Interp, a []Value) Value { return a[0] }),
		"runtime.GC":                         nop,

		"os.ReadFile":           vfsRead,
		"os.Stat":               vfsStat,
		"io/ioutil.ReadFile":    vfsRead,
		"os.Getwd":              always(func(ip *Interp, a []Value) Value { return Tuple{"/vfs", Iface{}} }),
		"(*os.File).Write":      always(func(ip *Interp, a []Value) Value { return Tuple{int64(len(a[1].(Slice))), Iface{}} }),
		"(*os.PathError).Error": nil,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	for k, v := range vsymIntrinsics {
		intrinsics[vsymPath+"."+k] = v
	}
	for k, v := range reIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range fmtIntrinsics {
		intrinsics[k] = v
	}
}

func repeat(ip *Interp, s string, n int64) Value {
	if n < 0 {
		panic(targetPanic{Iface{ip.P.canon(types.Typ[types.String]), "strings: negative Repeat count"}})
	}
	if int64(len(s))*n > 1<<20 {
		ip.unsupported("strings.Repeat too long")
	}
	return strings.Repeat(s, int(n))
}

func sbString(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	// builder struct {addr, buf}
	st, ok := (*a[0].(*Value)).(Struct)
	if !ok || len(st) != 2 {
		return nil, false
	}
	s, ok := st[1].(Slice)
	if !ok {
		return nil, false
	}
	return mkStr(s), true
}

func uniPred(f func(rune) bool) intrinsic {
	return func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		switch x := a[0].(type) {
		case int64:
			return f(rune(x)), true
		case *Term:
			c := ip.tc
			if ip.branch(c.cmp(OUlt, x, c.Const(0x80, 32))) {
				var set [128]bool
				for i := range set {
					set[i] = f(rune(i))
				}
				return simpBool(ip.inSet(x, set[:])), true
			}
			return f(rune(int32(ip.concretize(x)))), true
		}
		return nil, false
	}
}

func uniMap(f func(rune) rune) intrinsic {
	return func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		switch x := a[0].(type) {
		case int64:
			return int64(f(rune(x))), true
		case *Term:
			c := ip.tc
			if ip.branch(c.cmp(OUlt, x, c.Const(0x80, 32))) {
				base := make([]Value, 128)
				for i := range base {
					base[i] = int64(f(rune(i)))
				}
				return ip.tableLoad(base, x, 32), true
			}
			return int64(f(rune(int32(ip.concretize(x))))), true
		}
		return nil, false
	}
}

// inSet builds x ∈ {i | set[i]} as ranges.
func (ip *Interp) inSet(x *Term, set []bool) *Term {
	c := ip.tc
	var alts []*Term
	for i := 0; i < len(set); {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j+1 < len(set) && set[j+1] {
			j++
		}
		lo, hi := c.Const(uint64(i), x.w), c.Const(uint64(j), x.w)
		if i == j {
			alts = append(alts, c.Eq(x, lo))
		} else {
			alts = append(alts, c.And(c.cmp(OUle, lo, x), c.cmp(OUle, x, hi)))
		}
		i = j + 1
	}
	return c.Or(alts...)
}

func strIndexByte(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	if s, ok := a[0].(string); ok {
		if b, ok := a[1].(int64); ok {
			return int64(strings.IndexByte(s, byte(b))), true
		}
	}
	for i, b := range strBytes(a[0]) {
		if ip.boolVal(ip.byteEq(b, a[1])) {
			return int64(i), true
		}
	}
	return int64(-1), true
}

func sliceIndexByte(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	for i, b := range a[0].(Slice) {
		if ip.boolVal(ip.byteEq(b, a[1])) {
			return int64(i), true
		}
	}
	return int64(-1), true
}

func strLastIndexByte(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	bs := strBytes(a[0])
	for i := len(bs) - 1; i >= 0; i-- {
		if ip.boolVal(ip.byteEq(bs[i], a[1])) {
			return int64(i), true
		}
	}
	return int64(-1), true
}

// strCountByte keeps the count symbolic: a sum of indicator terms.
func strCountByte(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	c := ip.tc
	sum := c.Const(0, 64)
	for _, b := range strBytes(a[0]) {
		switch t := ip.byteEq(b, a[1]).(type) {
		case bool:
			if t {
				sum = c.Bin(OAdd, sum, c.Const(1, 64))
			}
		case *Term:
			sum = c.Bin(OAdd, sum, c.Ite(t, c.Const(1, 64), c.Const(0, 64)))
		}
	}
	return simpInt(sum, intTy{64, true, true}), true
}

func strIndex(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	x, ok1 := a[0].(string)
	y, ok2 := a[1].(string)
	if ok1 && ok2 {
		return int64(strings.Index(x, y)), true
	}
	n, m := strLen(a[0]), strLen(a[1])
	for i := 0; i+m <= n; i++ {
		if ip.boolVal(ip.strEq(strSlice(a[0], i, i+m), a[1])) {
			return int64(i), true
		}
	}
	return int64(-1), true
}

func strLastIndex(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	x, ok1 := a[0].(string)
	y, ok2 := a[1].(string)
	if ok1 && ok2 {
		return int64(strings.LastIndex(x, y)), true
	}
	n, m := strLen(a[0]), strLen(a[1])
	for i := n - m; i >= 0; i-- {
		if ip.boolVal(ip.strEq(strSlice(a[0], i, i+m), a[1])) {
			return int64(i), true
		}
	}
	return int64(-1), true
}

func strCompare(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	if ip.boolVal(ip.strEq(a[0], a[1])) {
		return int64(0), true
	}
	if ip.boolVal(ip.strLess(a[0], a[1])) {
		return int64(-1), true
	}
	return int64(1), true
}

func sortSlice(fname string) intrinsic {
	return func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		x := a[0].(Iface)
		s := x.v.(Slice)
		swap := &Closure{name: "swap", host: func(ip *Interp, args []Value) Value {
			i, j := ip.intVal(args[0]), ip.intVal(args[1])
			vi, vj := copyVal(s[i]), copyVal(s[j])
			ip.store(&s[i], vj)
			ip.store(&s[j], vi)
			return nil
		}}
		f := ip.P.pkgs["sort"].Func(fname)
		if f == nil {
			ip.unsupported("sort.%s", fname)
		}
		data := Struct{a[1], swap}
		if fname == "stable_func" {
			ip.callFn(f, []Value{data, int64(len(s))}, nil)
		} else {
			ip.callFn(f, []Value{data, int64(0), int64(len(s)), int64(bits.Len(uint(len(s))))}, nil)
		}
		return nil, true
	}
}

func errorsIs(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	err, target := a[0].(Iface), a[1].(Iface)
	for err.t != nil {
		if target.t != nil && types.Comparable(err.t) && ip.boolVal(ip.eqVal(err, target)) {
			return true, true
		}
		m := ip.P.lookupMethod(err.t, nil, "Unwrap")
		if m == nil || m.Signature.Results().Len() != 1 {
			return false, true
		}
		r, ok := ip.callFn(m, []Value{err.v}, nil).(Iface)
		if !ok {
			return false, true
		}
		err = r
	}
	return target.t == nil, true
}

// randDraw: draws are modelled as pairwise distinct values; which values does not matter
// unless the code compares them, so they are fresh concrete ones.
func randDraw(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	ip.randN++
	return 1000003*ip.randN%2147483647 + 1, true
}

// randDrawN is the same for draws below a bound, which has to be big enough for distinct ones.
func randDrawN(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	n, ok := a[0].(int64)
	if !ok || n < 1<<30 {
		ip.unsupported("random draws from a small range")
	}
	ip.randN++
	return 1000003 * ip.randN % n, true
}

func onceDo(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	p := a[0].(*Value)
	if ip.onceDone[p] {
		return nil, true
	}
	ip.onceDone[p] = true
	ip.onUndo(func() { delete(ip.onceDone, p) })
	ip.locked++
	ip.callClosure(a[1].(*Closure), nil)
	ip.locked--
	return nil, true
}

// Writes between Lock and Unlock, in what a Once does, and of atomics are synchronised.
func lock(ip *Interp, fn *finfo, a []Value) (Value, bool) { ip.locked++; return nil, true }
func unlock(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	if ip.locked > 0 {
		ip.locked--
	}
	return nil, true
}

// syncMap finds the entries of a sync.Map, which are kept beside it.
func syncMap(f func(ip *Interp, m *Map, a []Value) Value) intrinsic {
	return func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		p := a[0].(*Value)
		if p == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := ip.syncMaps[p]
		if m == nil {
			m = &Map{idx: map[any]int{}, born: ip.pathNo}
			ip.syncMaps[p] = m
			ip.onUndo(func() { delete(ip.syncMaps, p) })
		}
		return f(ip, m, a[1:]), true
	}
}

func poolGet(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	st := (*a[0].(*Value)).(Struct)
	for i := len(st) - 1; i >= 0; i-- {
		if c, ok := st[i].(*Closure); ok {
			if c == nil {
				return Iface{}, true
			}
			return ip.callClosure(c, nil), true
		}
	}
	return Iface{}, true
}

func atomicField(a Value) *Value {
	st := (*a.(*Value)).(Struct)
	return &st[len(st)-1]
}
func atomicLoad(ip *Interp, fn *finfo, a []Value) (Value, bool) { return *atomicField(a[0]), true }
func atomicStore(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	ip.locked++
	ip.set(atomicField(a[0]), a[1])
	ip.locked--
	return nil, true
}
func atomicAdd(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	return atomicAddP(ip, fn, []Value{atomicField(a[0]), a[1]})
}
func atomicAddP(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	p := a[0].(*Value)
	v := (*p).(int64) + a[1].(int64)
	ip.locked++
	ip.set(p, v)
	ip.locked--
	return v, true
}
func atomicLoadP(ip *Interp, fn *finfo, a []Value) (Value, bool) { return *a[0].(*Value), true }

// ---------------------------------------------------------------------------
// reflection, as far as it is needed

func reflectKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// deepEqual follows reflect.DeepEqual; the result may be symbolic.
func (ip *Interp) deepEqual(x, y Value, seen map[[2]*Value]bool) Value {
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		return ip.deepEqual(a.v, b.v, seen)
	case Slice:
		b := y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r Value = true
		for i := range a {
			r = ip.and(r, ip.deepEqual(a[i], b[i], seen))
			if r == false {
				return false
			}
		}
		return r
	case Struct:
		b := y.(Struct)
		var r Value = true
		for i := range a {
			r = ip.and(r, ip.deepEqual(a[i], b[i], seen))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		var r Value = true
		for i := range a {
			r = ip.and(r, ip.deepEqual(a[i], b[i], seen))
			if r == false {
				return false
			}
		}
		return r
	case *Value:
		b := y.(*Value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		k := [2]*Value{a, b}
		if seen[k] {
			return true
		}
		seen[k] = true
		return ip.deepEqual(*a, *b, seen)
	case *Map:
		b := y.(*Map)
		if a == b {
			return true
		}
		if a == nil || b == nil || a.live != b.live {
			return false
		}
		var r Value = true
		for _, e := range a.ents {
			if !e.live {
				continue
			}
			j := ip.mapFind(b, e.k)
			if j < 0 {
				return false
			}
			r = ip.and(r, ip.deepEqual(e.v, b.ents[j].v, seen))
			if r == false {
				return false
			}
		}
		return r
	case *Closure:
		b := y.(*Closure)
		return a == nil && b == nil
	}
	return ip.eqVal(x, y)
}

// ---------------------------------------------------------------------------
// virtual file system: files registered by the harness

func (ip *Interp) pathErr(op string, path Value) Value {
	t := ip.P.pkgs["io/fs"].Pkg.Scope().Lookup("PathError").Type()
	en := ip.global(ip.P.pkgs["io/fs"].Var("ErrNotExist"))
	pe := newSlot(Struct{op, path, *en})
	return Iface{ip.P.canon(types.NewPointer(t)), pe}
}

func vfsRead(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	name, ok := a[0].(string)
	if !ok {
		ip.unsupported("file name is symbolic")
	}
	if v, ok := ip.vfs[name]; ok {
		return Tuple{Slice(append([]Value{}, strBytes(v)...)), Iface{}}, true
	}
	return Tuple{Slice(nil), ip.pathErr("open", name)}, true
}

func vfsStat(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	name, ok := a[0].(string)
	if !ok {
		ip.unsupported("file name is symbolic")
	}
	if _, ok := ip.vfs[name]; ok {
		ip.unsupported("os.Stat result")
	}
	return Tuple{Iface{}, ip.pathErr("stat", name)}, true
}

// ---------------------------------------------------------------------------
// vsym: the harness interface

func (ip *Interp) addInput(name, kind string, v *Term, c, bias int64) {
	ip.inputs = append(ip.inputs, inputVar{name, kind, v, c, bias})
}

func nameArg(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "?"
}

var vsymIntrinsics = map[string]intrinsic{
	// Byte(name, alphabet string) byte
	"Byte": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		return ip.symByte(nameArg(a[0]), a[1].(string)), true
	},
	"Bool": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		v := ip.newVar(0, 0, nil)
		ip.addInput(nameArg(a[0]), "bool", v, 0, 0)
		return v, true
	},
	// Int(name, lo, hi) int, symbolic
	"Int": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		lo, hi := a[1].(int64), a[2].(int64)
		if lo == hi {
			ip.addInput(nameArg(a[0]), "int", nil, lo, 0)
			return lo, true
		}
		c := ip.tc
		v := ip.newVar(64, uint64(lo), func(v *Term) *Term {
			return c.And(c.cmp(OSle, c.Const(uint64(lo), 64), v), c.cmp(OSle, v, c.Const(uint64(hi), 64)))
		})
		ip.addInput(nameArg(a[0]), "int", v, 0, 0)
		return v, true
	},
	// Choose(name, n) int: forked
	"Choose": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		v := ip.choose(ip.intVal(a[1]))
		ip.addInput(nameArg(a[0]), "choose", nil, v, 0)
		return v, true
	},
	// Bytes(name, n, alphabet) string of exactly n symbolic bytes
	"Bytes": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		n := ip.intVal(a[1])
		out := make([]Value, n)
		for i := range out {
			out[i] = ip.symByte(nameArg(a[0]), a[2].(string))
		}
		return mkStr(out), true
	},
	"Assume": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		switch t := a[0].(type) {
		case bool:
			if !t {
				panic(pathEnd{"assume", ""})
			}
		case *Term:
			ip.assume(t)
		}
		return nil, true
	},
	"Assert": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		ip.assertT(a[0], ip.concStr(a[1]))
		return nil, true
	},
	"Fail": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		ip.violate("assert", ip.concStr(a[0]), ip.model)
		return nil, true
	},
	"Cover": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		ip.covers = append(ip.covers, nameArg(a[0]))
		return nil, true
	},
	"Observe": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		ip.observed = append(ip.observed, a[0])
		return nil, true
	},
	"Note":     func(ip *Interp, fn *finfo, a []Value) (Value, bool) { return nil, true },
	"Symbolic": always(func(ip *Interp, a []Value) Value { return true }),
	"Thorough": always(func(ip *Interp, a []Value) Value { return ip.thorough }),
	// Split(b bool) bool forks on b now
	"Split": func(ip *Interp, fn *finfo, a []Value) (Value, bool) { return ip.boolVal(a[0]), true },
	// Concrete(n int) int forks over n's values
	"Concrete": func(ip *Interp, fn *finfo, a []Value) (Value, bool) { return ip.intVal(a[0]), true },
	// Shared(x, op): during op, everything reachable from x is shared and must not be written
	"Shared": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		seen := map[any]bool{}
		ip.freeze(a[0], seen)
		for g, v := range ip.globals {
			if ip.P.ours(g) {
				ip.freeze(v, seen)
			}
		}
		ip.frozenOn = true
		ip.callClosure(a[1].(*Closure), nil)
		ip.frozen = map[*Value]bool{}
		ip.frozenOn = false
		return nil, true
	},
	// Once(key, f): a concrete set-up computation, run once per worker and shared by all its paths
	"Once": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		key := ip.h.name + "|" + a[0].(string)
		if v, ok := ip.onceVals[key]; ok {
			return v, true
		}
		if !ip.logging {
			return ip.callClosure(a[1].(*Closure), nil), true
		}
		if cl := a[1].(*Closure); len(cl.env) > 0 {
			ip.unsupported("the function given to Once captures variables of its path")
		}
		steps, randN := ip.steps, ip.randN
		ip.logging, ip.inOnce = false, true
		defer func() { ip.logging, ip.inOnce = true, false }()
		v := ip.callClosure(a[1].(*Closure), nil)
		ip.onceVals[key] = v
		ip.steps = steps
		_ = randN
		return v, true
	},
	// Memo(key, f): f(key) for a concrete key, computed once per worker while the key keeps coming up
	"Memo": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		k, ok := a[0].(string)
		if !ok {
			ip.unsupported("Memo of a symbolic key")
		}
		key := "memo|" + ip.h.name + "|" + k
		if v, ok := ip.onceVals[key]; ok {
			return v, true
		}
		if !ip.logging {
			return ip.callClosure(a[1].(*Closure), []Value{k}), true
		}
		if cl := a[1].(*Closure); len(cl.env) > 0 {
			ip.unsupported("the function given to Memo captures variables of its path")
		}
		if len(ip.onceVals) > 128 {
			for o := range ip.onceVals {
				if strings.HasPrefix(o, "memo|") {
					delete(ip.onceVals, o)
				}
			}
		}
		steps := ip.steps
		ip.logging, ip.inOnce = false, true
		defer func() { ip.logging, ip.inOnce = true, false }()
		v := ip.callClosure(a[1].(*Closure), []Value{k})
		ip.onceVals[key] = v
		ip.steps = steps
		return v, true
	},
	"MapOrder": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		n := ip.intVal(a[0])
		ip.mapOrder = n > 0
		ip.mapUsed = ip.mapUsed || n > 0
		ip.mapOrderMax = int(n)
		ip.mapBack, ip.mapBudget = false, -1
		return nil, true
	},
	// MapOrders(n): all maps backwards, or any order for up to n iterations over maps
	"MapOrders": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		n := int(ip.intVal(a[0]))
		ip.mapOrder, ip.mapOrderMax, ip.mapBack, ip.mapBudget = n > 0, 3, false, 0
		if n > 0 {
			ip.mapUsed = true
			ip.mapBack = ip.choose(2) == 0
			if !ip.mapBack {
				ip.mapBudget = n
			}
		}
		return nil, true
	},
	"File": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		ip.vfs["/vfs/"+a[0].(string)] = a[1]
		return "/vfs/" + a[0].(string), true
	},
}

func (ip *Interp) symByte(name, alpha string) Value {
	if alpha == "" {
		v := ip.newVar(8, 0, nil)
		ip.addInput(name, "byte", v, 0, 0)
		return v
	}
	if len(alpha) == 1 {
		ip.addInput(name, "byte", nil, int64(alpha[0]), 0)
		return int64(alpha[0])
	}
	v := ip.newVar(8, uint64(alpha[0]), func(v *Term) *Term {
		var set [256]bool
		for i := 0; i < len(alpha); i++ {
			set[alpha[i]] = true
		}
		return ip.inSet(v, set[:])
	})
	ip.addInput(name, "byte", v, 0, 0)
	return v
}

// concStr renders a possibly symbolic string for a message (without forking).
func (ip *Interp) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		return ip.strUnder(s, ip.model)
	}
	return fmt.Sprintf("%T", v)
}

func (ip *Interp) strUnder(v Value, m []uint64) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch x := x.(type) {
			case int64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(ip.tc.Eval(x, m))
			}
		}
		return string(b)
	}
	return "?"
}

// freeze marks everything reachable from v as shared: later writes are violations.
func (ip *Interp) freeze(v Value, seen map[any]bool) {
	switch x := v.(type) {
	case Iface:
		ip.freeze(x.v, seen)
	case Struct:
		for i := range x {
			ip.freeze(x[i], seen)
		}
	case Array:
		for i := range x {
			ip.freeze(x[i], seen)
		}
	case Tuple:
		for i := range x {
			ip.freeze(x[i], seen)
		}
	case *Value:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		ip.freezeSlot(x, seen)
	case Slice:
		full := x[:cap(x)]
		for i := range full {
			p := &full[i]
			if !seen[p] {
				seen[p] = true
				ip.freezeSlot(p, seen)
			}
		}
	case *Map:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !x.frozen {
			x.frozen = true
			ip.onUndo(func() { x.frozen = false })
		}
		for _, e := range x.ents {
			ip.freeze(e.k, seen)
			ip.freeze(e.v, seen)
		}
	case *Closure:
		if x != nil && !seen[x] {
			seen[x] = true
			for _, e := range x.env {
				ip.freeze(e, seen)
			}
		}
	}
}

func (ip *Interp) freezeSlot(p *Value, seen map[any]bool) {
	ip.frozen[p] = true
	switch y := (*p).(type) {
	case Struct:
		for i := range y {
			if !seen[&y[i]] {
				seen[&y[i]] = true
				ip.freezeSlot(&y[i], seen)
			}
		}
	case Array:
		for i := range y {
			if !seen[&y[i]] {
				seen[&y[i]] = true
				ip.freezeSlot(&y[i], seen)
			}
		}
	default:
		ip.freeze(y, seen)
	}
}

var _ = sort.Strings
var _ *ssa.Function
