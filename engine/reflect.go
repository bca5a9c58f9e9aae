package main

// Engine side of the reflect model in /verif/stubs/reflect.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

type rtypeBox struct{ t types.Type }

func strconvQuote(s string) string { return strconv.Quote(s) }

func (ip *Interp) rtypePtr(t types.Type) *Value {
	p := ip.typeIDs[t]
	if p == nil {
		p = newSlot(Struct{rtypeBox{t}})
		ip.typeIDs[t] = p
	}
	return p
}

func (ip *Interp) rtypeOf(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	t = ip.P.canon(t)
	rt := ip.P.tpkgs["reflect"].Scope().Lookup("rtype").Type()
	return Iface{ip.P.canon(types.NewPointer(rt)), ip.rtypePtr(t)}
}

func (ip *Interp) rtypeT(a Value) types.Type {
	p := a.(*Value)
	if p == nil {
		ip.rtPanic("invalid memory address or nil pointer dereference")
	}
	return (*p).(Struct)[0].(rtypeBox).t
}

func (ip *Interp) mkRV(t types.Type, v Value, ro bool) Value {
	if t == nil {
		return Struct{nilPtr, Iface{}, false}
	}
	return Struct{ip.rtypePtr(ip.P.canon(t)), v, ro}
}

func (ip *Interp) rv(a Value) (types.Type, Value, bool) {
	s := a.(Struct)
	p := s[0].(*Value)
	if p == nil {
		panic(targetPanic{Iface{ip.P.canon(types.Typ[types.String]), "reflect: call of method on zero Value"}})
	}
	return ip.rtypeT(p), s[1], s[2].(bool)
}

// typeStr is reflect's rendering of a type.
func typeStr(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Named:
		s := x.Obj().Name()
		if p := x.Obj().Pkg(); p != nil {
			s = p.Name() + "." + s
		}
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				a := ta.At(i)
				if n, ok := types.Unalias(a).(*types.Named); ok && n.Obj().Pkg() != nil {
					as = append(as, n.Obj().Pkg().Path()+"."+n.Obj().Name())
				} else {
					as = append(as, typeStr(a))
				}
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + typeStr(x.Elem())
	case *types.Slice:
		return "[]" + typeStr(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), typeStr(x.Elem()))
	case *types.Map:
		return "map[" + typeStr(x.Key()) + "]" + typeStr(x.Elem())
	case *types.Interface:
		if x.Empty() {
			return "interface {}"
		}
	case *types.Basic:
		return types.Typ[x.Kind()].Name()
	case *types.Struct:
		if x.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < x.NumFields(); i++ {
			fs = append(fs, x.Field(i).Name()+" "+typeStr(x.Field(i).Type()))
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	case *types.Signature:
		var ps []string
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, typeStr(x.Params().At(i).Type()))
		}
		r := ""
		switch x.Results().Len() {
		case 0:
		case 1:
			r = " " + typeStr(x.Results().At(0).Type())
		default:
			var rs []string
			for i := 0; i < x.Results().Len(); i++ {
				rs = append(rs, typeStr(x.Results().At(i).Type()))
			}
			r = " (" + strings.Join(rs, ", ") + ")"
		}
		return "func(" + strings.Join(ps, ", ") + ")" + r
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// fakeAddr gives each pointer a stable, distinct, non-zero address within a path.
func (ip *Interp) fakeAddr(k any) Value {
	if ip.addrs == nil {
		ip.addrs = map[any]int64{}
	}
	a, ok := ip.addrs[k]
	if !ok {
		a = 0xc000010000 + int64(len(ip.addrs))*0x40
		ip.addrs[k] = a
	}
	return a
}

func reflectTypeOf(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	return ip.rtypeOf(a[0].(Iface).t), true
}

var fmtIntrinsics map[string]intrinsic

func init() {
	rt := func(f func(ip *Interp, t types.Type, a []Value) Value) intrinsic {
		return func(ip *Interp, fn *finfo, a []Value) (Value, bool) { return f(ip, ip.rtypeT(a[0]), a), true }
	}
	rv := func(f func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value) intrinsic {
		return func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			t, v, ro := ip.rv(a[0])
			return f(ip, t, v, ro, a), true
		}
	}
	raw := rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value { return v })
	widen := rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
		it := intTyOf(t)
		return ip.convInt(v, it, intTy{64, it.signed, true})
	})
	fmtIntrinsics = map[string]intrinsic{
		"(*reflect.rtype).String": rt(func(ip *Interp, t types.Type, a []Value) Value { return typeStr(t) }),
		"(*reflect.rtype).Name": rt(func(ip *Interp, t types.Type, a []Value) Value {
			switch x := t.(type) {
			case *types.Named:
				return x.Obj().Name()
			case *types.Basic:
				return types.Typ[x.Kind()].Name()
			}
			return ""
		}),
		"(*reflect.rtype).PkgPath": rt(func(ip *Interp, t types.Type, a []Value) Value {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		}),
		"(*reflect.rtype).Kind": rt(func(ip *Interp, t types.Type, a []Value) Value { return reflectKind(t) }),
		"(*reflect.rtype).Elem": rt(func(ip *Interp, t types.Type, a []Value) Value {
			switch u := t.Underlying().(type) {
			case interface{ Elem() types.Type }:
				return ip.rtypeOf(u.Elem())
			}
			panic(targetPanic{Iface{ip.P.canon(types.Typ[types.String]), "reflect: Elem of invalid type " + typeStr(t)}})
		}),
		"(*reflect.rtype).Key": rt(func(ip *Interp, t types.Type, a []Value) Value { return ip.rtypeOf(t.Underlying().(*types.Map).Key()) }),
		"(*reflect.rtype).Len": rt(func(ip *Interp, t types.Type, a []Value) Value { return t.Underlying().(*types.Array).Len() }),
		"(*reflect.rtype).NumField": rt(func(ip *Interp, t types.Type, a []Value) Value {
			return int64(t.Underlying().(*types.Struct).NumFields())
		}),
		"(*reflect.rtype).fieldName": rt(func(ip *Interp, t types.Type, a []Value) Value {
			return t.Underlying().(*types.Struct).Field(int(a[1].(int64))).Name()
		}),
		"(*reflect.rtype).fieldType": rt(func(ip *Interp, t types.Type, a []Value) Value {
			return ip.rtypeOf(t.Underlying().(*types.Struct).Field(int(a[1].(int64))).Type())
		}),
		"(*reflect.rtype).Comparable": rt(func(ip *Interp, t types.Type, a []Value) Value { return types.Comparable(t) }),
		"(*reflect.rtype).Implements": rt(func(ip *Interp, t types.Type, a []Value) Value {
			return ip.P.implements(t, ip.rtypeT(a[1].(Iface).v))
		}),
		"reflect.TypeOf": reflectTypeOf,
		"reflect.ValueOf": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			x := a[0].(Iface)
			return ip.mkRV(x.t, x.v, false), true
		},
		"(reflect.Value).Interface": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return v
			}
			return Iface{t, v}
		}),
		"(reflect.Value).Bool":    raw,
		"(reflect.Value).Int":     widen,
		"(reflect.Value).Uint":    widen,
		"(reflect.Value).Float":   raw,
		"(reflect.Value).Complex": raw,
		"(reflect.Value).Bytes":   raw,
		"(reflect.Value).String": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			if a[0].(Struct)[0].(*Value) == nil {
				return "<invalid Value>", true
			}
			t, v, _ := ip.rv(a[0])
			switch v.(type) {
			case string, *SymStr:
				return v, true
			}
			return "<" + typeStr(t) + " Value>", true
		},
		"(reflect.Value).IsNil": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			switch x := v.(type) {
			case *Value:
				return x == nil
			case Slice:
				return x == nil
			case *Map:
				return x == nil
			case *Closure:
				return x == nil
			case Iface:
				return x.t == nil
			}
			panic(targetPanic{Iface{ip.P.canon(types.Typ[types.String]), "reflect: IsNil of " + typeStr(t)}})
		}),
		"(reflect.Value).Len": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			switch x := v.(type) {
			case Slice:
				return int64(len(x))
			case Array:
				return int64(len(x))
			case string, *SymStr:
				return int64(strLen(x))
			case *Map:
				if x == nil {
					return int64(0)
				}
				return int64(x.live)
			}
			ip.unsupported("reflect Len of %s", t)
			return nil
		}),
		"(reflect.Value).Index": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			i := int(ip.intVal(a[1]))
			switch x := v.(type) {
			case Slice:
				return ip.mkRV(t.Underlying().(*types.Slice).Elem(), copyVal(x[i]), ro)
			case Array:
				return ip.mkRV(t.Underlying().(*types.Array).Elem(), copyVal(x[i]), ro)
			}
			ip.unsupported("reflect Index of %s", t)
			return nil
		}),
		"(reflect.Value).Field": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			i := int(ip.intVal(a[1]))
			f := t.Underlying().(*types.Struct).Field(i)
			return ip.mkRV(f.Type(), copyVal(v.(Struct)[i]), ro || !f.Exported())
		}),
		"(reflect.Value).Elem": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			switch x := v.(type) {
			case Iface:
				return ip.mkRV(x.t, x.v, ro)
			case *Value:
				if x == nil {
					return ip.mkRV(nil, nil, false)
				}
				return ip.mkRV(t.Underlying().(*types.Pointer).Elem(), copyVal(*x), ro)
			}
			ip.unsupported("reflect Elem of %s", t)
			return nil
		}),
		"(reflect.Value).MapKeys": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			out := Slice{}
			if m := v.(*Map); m != nil {
				it := ip.newMapIter(m)
				for {
					n := ip.next(nil, it).(Tuple)
					if n[0] == false {
						break
					}
					out = append(out, ip.mkRV(t.Underlying().(*types.Map).Key(), n[1], ro))
				}
			}
			return out[:len(out):len(out)]
		}),
		"(reflect.Value).MapIndex": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value {
			_, k, _ := ip.rv(a[1])
			m := v.(*Map)
			i := ip.mapFind(m, k)
			if i < 0 {
				return ip.mkRV(nil, nil, false)
			}
			return ip.mkRV(t.Underlying().(*types.Map).Elem(), m.ents[i].v, ro)
		}),
		"(reflect.Value).UnsafePointer": rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value { return ip.ptrOf(v) }),
		"(reflect.Value).Pointer":       rv(func(ip *Interp, t types.Type, v Value, ro bool, a []Value) Value { return ip.addrOf(ip.ptrOf(v)) }),
	}
}

// ptrOf gives the pointer-shaped representation of a reference.
func (ip *Interp) ptrOf(v Value) Value {
	switch x := v.(type) {
	case *Value:
		return x
	case Slice:
		if x == nil {
			return nilPtr
		}
		return UPtr{&sliceData{x}}
	case *Map:
		if x == nil {
			return nilPtr
		}
		return UPtr{x}
	case *Closure:
		if x == nil {
			return nilPtr
		}
		return UPtr{x}
	case UPtr:
		return x
	}
	ip.unsupported("pointer of %T", v)
	return nil
}

func (ip *Interp) addrOf(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			return int64(0)
		}
		return ip.fakeAddr(x)
	case UPtr:
		if s, ok := x.v.(*sliceData); ok {
			if cap(s.s) == 0 {
				return int64(0xc000000000)
			}
			return ip.fakeAddr(&s.s[:1][0])
		}
		return ip.fakeAddr(x.v)
	}
	ip.unsupported("address of %T", p)
	return nil
}

func init() {
	// permutation for the frozen model
	fmtIntrinsics["github.com/arr-ai/frozen.order"] = func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
		n := int(ip.intVal(a[0]))
		m := &Map{idx: map[any]int{}, born: ip.pathNo}
		for i := 0; i < n; i++ {
			m.ents = append(m.ents, mapEnt{int64(i), int64(i), true})
		}
		m.live = n
		it := ip.newMapIter(m)
		out := make(Slice, n)
		for i := range out {
			if it.order != nil {
				out[i] = int64(it.order[i])
			} else {
				out[i] = int64(i)
			}
		}
		return out, true
	}
}
