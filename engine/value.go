package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: bool, int64 (every integer type; uint64 as bit pattern), float64, string, *SymStr,
// *Term (symbolic bool or integer), Struct, Array, *Value (pointer), *SymPtr, Slice, *Map, Iface, *Closure,
// Tuple, *mapIter, *strIter, UPtr.
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value
type Slice []Value // nil Slice is the nil slice; capacity as in Go

type SymStr struct{ b []Value } // each int64 or *Term(8); at least one symbolic

// SymPtr is the address of an element at a symbolic index.
type SymPtr struct {
	base []Value
	idx  *Term // 64-bit, already bounds-checked
	w    uint8 // element width; 0 for bool
}

// UPtr is an unsafe.Pointer-ish wrapper used for SliceData/StringData.
type UPtr struct{ v Value }

type Iface struct {
	t types.Type // canonical; nil for the nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	host func(ip *Interp, args []Value) Value
	name string
}

type mapEnt struct {
	k, v Value
	live bool
}

type Map struct {
	idx    map[any]int
	ents   []mapEnt
	live   int
	nsym   int
	frozen bool
	born   int // path number in which it was created
}

type mapIter struct {
	m     *Map
	pos   int
	order []int // when a nondeterministic order is in force
}

type strIter struct {
	s   Value
	pos int
}

var nilPtr = (*Value)(nil)

func newSlot(v Value) *Value { p := new(Value); *p = v; return p }

type intTy struct {
	w      uint8
	signed bool
	ok     bool
}

func intTyOf(t types.Type) intTy {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intTy{}
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intTy{64, true, true}
	case types.Int8:
		return intTy{8, true, true}
	case types.Int16:
		return intTy{16, true, true}
	case types.Int32, types.UntypedRune:
		return intTy{32, true, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return intTy{64, false, true}
	case types.Uint8:
		return intTy{8, false, true}
	case types.Uint16:
		return intTy{16, false, true}
	case types.Uint32:
		return intTy{32, false, true}
	}
	return intTy{}
}

func (it intTy) norm(v int64) int64 {
	if it.w == 64 {
		return v
	}
	sh := 64 - uint(it.w)
	if it.signed {
		return v << sh >> sh
	}
	return int64(uint64(v) << sh >> sh)
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return nilPtr
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %v (%T)", t, t.Underlying()))
}

// copyVal copies aggregates so that the result shares no slots with v.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		out := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				out[i] = copyVal(x)
			default:
				out[i] = x
			}
		}
		return out
	case Array:
		out := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				out[i] = copyVal(x)
			default:
				out[i] = x
			}
		}
		return out
	}
	return v
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = int64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{append([]Value(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strCat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	bx, by := strBytes(x), strBytes(y)
	out := make([]Value, 0, len(bx)+len(by))
	out = append(append(out, bx...), by...)
	return &SymStr{out}
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return int64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

type ifaceKey struct {
	t types.Type
	k any
}

type structKey string

// mapKey returns a Go-comparable key for a fully concrete value.
func mapKey(v Value) (any, bool) {
	switch x := v.(type) {
	case bool, int64, string, *Value, *Map, UPtr:
		return x, true
	case float64:
		if math.IsNaN(x) {
			return &x, true
		}
		return x, true
	case Iface:
		if x.t == nil {
			return ifaceKey{}, true
		}
		k, ok := mapKey(x.v)
		return ifaceKey{x.t, k}, ok
	case Struct:
		var sb strings.Builder
		for _, f := range x {
			k, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%s|", keyString(k))
		}
		return structKey(sb.String()), true
	case Array:
		var sb strings.Builder
		for _, f := range x {
			k, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%s|", keyString(k))
		}
		return structKey(sb.String()), true
	}
	return nil, false
}

func keyString(k any) string {
	switch k := k.(type) {
	case ifaceKey:
		if k.t == nil {
			return "nil"
		}
		return fmt.Sprintf("I%p:%s", k.t, keyString(k.k))
	case string:
		return fmt.Sprintf("%q", k)
	case *Value:
		return fmt.Sprintf("P%d", uintptr(unsafe.Pointer(k)))
	case structKey:
		return "{" + string(k) + "}"
	}
	return fmt.Sprintf("%T%v", k, k)
}

func isSym(v Value) bool {
	switch x := v.(type) {
	case *Term, *SymStr:
		return true
	case Struct:
		for _, f := range x {
			if isSym(f) {
				return true
			}
		}
	case Array:
		for _, f := range x {
			if isSym(f) {
				return true
			}
		}
	case Iface:
		return isSym(x.v)
	}
	return false
}

// Go's size classes (runtime/sizeclasses.go), for faithful append growth.
var sizeClasses = []uintptr{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size uintptr, noscan bool) uintptr {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-8 || (noscan && req <= 32768) {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (size + 8191) &^ 8191
}

func growCap(newLen, oldCap int, esize uintptr, noscan bool) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esize == 0 {
		return newLen
	}
	return int(roundupsize(uintptr(newcap)*esize, noscan) / esize)
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

type typesType = types.Type
