package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// intVal returns a concrete integer, forking if v is symbolic (interpreted as signed).
func (ip *Interp) intVal(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return sx(ip.concretize(x), x.w)
	}
	panic(fmt.Sprintf("intVal %T", v))
}

func (ip *Interp) intValT(v Value, it intTy) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return it.norm(int64(ip.concretize(x)))
	}
	panic(fmt.Sprintf("intVal %T", v))
}

func (ip *Interp) boolVal(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return ip.branch(x)
	}
	panic(fmt.Sprintf("boolVal %T", v))
}

func (ip *Interp) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("term width %d want %d", x.w, w))
		}
		return x
	case int64:
		return ip.tc.Const(uint64(x), w)
	case bool:
		return ip.tc.Bool(x)
	}
	panic(fmt.Sprintf("term of %T", v))
}

// simp turns constant terms back into plain values.
func simpInt(t *Term, it intTy) Value {
	if t.isConst() {
		return it.norm(int64(t.k))
	}
	return t
}

func simpBool(t *Term) Value {
	if v, ok := t.isBoolConst(); ok {
		return v
	}
	return t
}

func (ip *Interp) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return simpBool(ip.tc.Not(x))
	}
	panic("not")
}

func (ip *Interp) and(x, y Value) Value {
	if b, ok := x.(bool); ok {
		if !b {
			return false
		}
		return y
	}
	if b, ok := y.(bool); ok {
		if !b {
			return false
		}
		return x
	}
	return simpBool(ip.tc.And(x.(*Term), y.(*Term)))
}

func (ip *Interp) byteEq(x, y Value) Value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		return a == b
	}
	return simpBool(ip.tc.Eq(ip.term(x, 8), ip.term(y, 8)))
}

func (ip *Interp) strEq(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a == b
	}
	if strLen(x) != strLen(y) {
		return false
	}
	bx, by := strBytes(x), strBytes(y)
	var r Value = true
	for i := range bx {
		r = ip.and(r, ip.byteEq(bx[i], by[i]))
		if r == false {
			return false
		}
	}
	return r
}

// strLess builds x < y lexicographically.
func (ip *Interp) strLess(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a < b
	}
	bx, by := strBytes(x), strBytes(y)
	n := len(bx)
	if len(by) < n {
		n = len(by)
	}
	r := ip.tc.Bool(len(bx) < len(by))
	for i := n - 1; i >= 0; i-- {
		p, q := ip.term(bx[i], 8), ip.term(by[i], 8)
		r = ip.tc.Or(ip.tc.cmp(OUlt, p, q), ip.tc.And(ip.tc.Eq(p, q), r))
	}
	return simpBool(r)
}

// eqVal compares two values of one static type (or two interfaces).
func (ip *Interp) eqVal(x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return simpBool(ip.tc.Eq(ip.tc.Bool(a), y.(*Term)))
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		t := y.(*Term)
		return simpBool(ip.tc.Eq(t, ip.tc.Const(uint64(a), t.w)))
	case *Term:
		switch b := y.(type) {
		case bool:
			return simpBool(ip.tc.Eq(a, ip.tc.Bool(b)))
		case int64:
			return simpBool(ip.tc.Eq(a, ip.tc.Const(uint64(b), a.w)))
		case *Term:
			return simpBool(ip.tc.Eq(a, b))
		}
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case string, *SymStr:
		return ip.strEq(x, y)
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case *SymPtr:
		return x == y
	case *Map:
		return a == y.(*Map)
	case *Closure:
		b := y.(*Closure)
		return (a == nil) == (b == nil) && (a == b)
	case Slice:
		b := y.(Slice)
		return (a == nil) && (b == nil)
	case UPtr:
		return x == y
	case Struct:
		b := y.(Struct)
		var r Value = true
		for i := range a {
			r = ip.and(r, ip.eqVal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		var r Value = true
		for i := range a {
			r = ip.and(r, ip.eqVal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			// comparison of interface with concrete value is made explicit by ssa
			ip.unsupported("compare %T with %T", x, y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		if !types.Comparable(a.t) {
			ip.rtPanic("comparing uncomparable type " + typeName(a.t))
		}
		return ip.eqVal(a.v, b.v)
	}
	ip.unsupported("compare %T with %T", x, y)
	return nil
}

func (ip *Interp) binop(d *dinstr, x, y Value) Value {
	op := d.aux.(token.Token)
	switch op {
	case token.EQL:
		return ip.eqVal(x, y)
	case token.NEQ:
		return ip.not(ip.eqVal(x, y))
	}
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return ip.intop(op, a, b, d.it, d.it2)
		}
		return ip.symop(op, x, y, d.it, d.it2)
	case *Term:
		if a.w == 0 {
			break
		}
		return ip.symop(op, x, y, d.it, d.it2)
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return ip.strLess(x, y)
		case token.GTR:
			return ip.strLess(y, x)
		case token.LEQ:
			return ip.not(ip.strLess(y, x))
		case token.GEQ:
			return ip.not(ip.strLess(x, y))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	ip.unsupported("binop %v on %T, %T", op, x, y)
	return nil
}

func (ip *Interp) intop(op token.Token, a, b int64, it, it2 intTy) Value {
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.ADD:
		return it.norm(a + b)
	case token.SUB:
		return it.norm(a - b)
	case token.MUL:
		return it.norm(a * b)
	case token.QUO:
		if b == 0 {
			ip.rtPanic("integer divide by zero")
		}
		if it.signed {
			if b == -1 {
				return it.norm(-a)
			}
			return it.norm(a / b)
		}
		return it.norm(int64(ua / ub))
	case token.REM:
		if b == 0 {
			ip.rtPanic("integer divide by zero")
		}
		if it.signed {
			if b == -1 {
				return int64(0)
			}
			return it.norm(a % b)
		}
		return it.norm(int64(ua % ub))
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return it.norm(a ^ b)
	case token.AND_NOT:
		return it.norm(a &^ b)
	case token.SHL:
		if it2.signed && b < 0 {
			ip.rtPanic("negative shift amount")
		}
		if ub >= uint64(it.w) {
			return int64(0)
		}
		return it.norm(a << ub)
	case token.SHR:
		if it2.signed && b < 0 {
			ip.rtPanic("negative shift amount")
		}
		if it.signed {
			if ub >= 64 {
				ub = 63
			}
			return a >> ub
		}
		if ub >= 64 {
			return int64(0)
		}
		return int64(ua >> ub)
	case token.LSS:
		if it.signed {
			return a < b
		}
		return ua < ub
	case token.LEQ:
		if it.signed {
			return a <= b
		}
		return ua <= ub
	case token.GTR:
		if it.signed {
			return a > b
		}
		return ua > ub
	case token.GEQ:
		if it.signed {
			return a >= b
		}
		return ua >= ub
	}
	panic("intop " + op.String())
}

func (ip *Interp) symop(op token.Token, xv, yv Value, it, it2 intTy) Value {
	c := ip.tc
	if op == token.SHL || op == token.SHR {
		x := ip.term(xv, it.w)
		var y *Term
		if it2.signed {
			if t, ok := yv.(*Term); ok {
				if ip.branch(c.cmp(OSlt, t, c.Const(0, t.w))) {
					ip.rtPanic("negative shift amount")
				}
			} else if yv.(int64) < 0 {
				ip.rtPanic("negative shift amount")
			}
		}
		// bring the count to the operand's width, saturating
		if t, ok := yv.(*Term); ok {
			if t.w <= it.w {
				y = c.Zext(t, it.w)
			} else {
				big := c.cmp(OUle, c.Const(uint64(it.w), t.w), t)
				y = c.Ite(big, c.Const(uint64(it.w), it.w), c.Trunc(t, it.w))
			}
		} else {
			u := uint64(yv.(int64))
			if u > uint64(it.w) {
				u = uint64(it.w)
			}
			y = c.Const(u, it.w)
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if it.signed {
				o = OAshr
			}
		}
		return simpInt(c.Bin(o, x, y), it)
	}
	x, y := ip.term(xv, it.w), ip.term(yv, it.w)
	switch op {
	case token.ADD:
		return simpInt(c.Bin(OAdd, x, y), it)
	case token.SUB:
		return simpInt(c.Bin(OSub, x, y), it)
	case token.MUL:
		return simpInt(c.Bin(OMul, x, y), it)
	case token.QUO, token.REM:
		if ip.branch(c.Eq(y, c.Const(0, it.w))) {
			ip.rtPanic("integer divide by zero")
		}
		var o Op
		switch {
		case op == token.QUO && it.signed:
			o = OSdiv
		case op == token.QUO:
			o = OUdiv
		case it.signed:
			o = OSrem
		default:
			o = OUrem
		}
		return simpInt(c.Bin(o, x, y), it)
	case token.AND:
		return simpInt(c.Bin(OBand, x, y), it)
	case token.OR:
		return simpInt(c.Bin(OBor, x, y), it)
	case token.XOR:
		return simpInt(c.Bin(OBxor, x, y), it)
	case token.AND_NOT:
		return simpInt(c.Bin(OBand, x, c.Bnot(y)), it)
	}
	lt, le := OUlt, OUle
	if it.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return simpBool(c.cmp(lt, x, y))
	case token.LEQ:
		return simpBool(c.cmp(le, x, y))
	case token.GTR:
		return simpBool(c.cmp(lt, y, x))
	case token.GEQ:
		return simpBool(c.cmp(le, y, x))
	}
	ip.unsupported("symbolic %v", op)
	return nil
}

func (ip *Interp) unop(d *dinstr, x Value) Value {
	switch d.aux.(token.Token) {
	case token.MUL:
		switch p := x.(type) {
		case *Value:
			if p == nil {
				ip.rtPanic("invalid memory address or nil pointer dereference")
			}
			switch v := (*p).(type) {
			case Struct, Array:
				return copyVal(v)
			default:
				return v
			}
		case *SymPtr:
			return ip.tableLoad(p.base, p.idx, p.w)
		}
		ip.unsupported("load through %T", x)
	case token.NOT:
		return ip.not(x)
	case token.SUB:
		switch a := x.(type) {
		case int64:
			return d.it.norm(-a)
		case float64:
			return -a
		case *Term:
			return simpInt(ip.tc.Bin(OSub, ip.tc.Const(0, a.w), a), d.it)
		}
	case token.XOR:
		switch a := x.(type) {
		case int64:
			return d.it.norm(^a)
		case *Term:
			return simpInt(ip.tc.Bnot(a), d.it)
		}
	}
	ip.unsupported("unop %v on %T", d.aux, x)
	return nil
}

// tableLoad reads base[idx] for a symbolic idx already known to be in range.
func (ip *Interp) tableLoad(base []Value, idx *Term, w uint8) Value {
	allInt := len(base) <= 512
	for _, v := range base {
		if _, ok := v.(int64); !ok {
			if b, ok := v.(bool); !ok || (b != true && b != false) {
				allInt = false
			}
			break
		}
	}
	_, isBool := Value(nil).(bool)
	if len(base) > 0 {
		_, isBool = base[0].(bool)
	}
	if !allInt || len(base) == 0 {
		return base[ip.concretize(idx)]
	}
	c := ip.tc
	// the index is usually a zero-extended byte
	ix := idx
	if ix.op == OZext {
		ix = ix.a[0]
	}
	lim := len(base)
	if ix.w < 16 && lim > 1<<ix.w {
		lim = 1 << ix.w
	}
	// group runs of equal values
	type run struct {
		lo, hi int
		v      Value
	}
	var runs []run
	counts := map[Value]int{}
	for i := 0; i < lim; i++ {
		if n := len(runs); n > 0 && runs[n-1].v == base[i] {
			runs[n-1].hi = i
		} else {
			runs = append(runs, run{i, i, base[i]})
		}
		counts[base[i]]++
	}
	best, bn := Value(nil), -1
	for _, r := range runs {
		if counts[r.v] > bn {
			best, bn = r.v, counts[r.v]
		}
	}
	conds := map[Value][]*Term{}
	var order []Value
	for _, r := range runs {
		if r.v == best {
			continue
		}
		if _, ok := conds[r.v]; !ok {
			order = append(order, r.v)
		}
		lo, hi := c.Const(uint64(r.lo), ix.w), c.Const(uint64(r.hi), ix.w)
		if r.lo == r.hi {
			conds[r.v] = append(conds[r.v], c.Eq(ix, lo))
		} else {
			conds[r.v] = append(conds[r.v], c.And(c.cmp(OUle, lo, ix), c.cmp(OUle, ix, hi)))
		}
	}
	if isBool {
		res := c.Bool(best.(bool))
		for _, v := range order {
			res = c.Ite(c.Or(conds[v]...), c.Bool(v.(bool)), res)
		}
		return simpBool(res)
	}
	res := c.Const(uint64(best.(int64)), w)
	for _, v := range order {
		res = c.Ite(c.Or(conds[v]...), c.Const(uint64(v.(int64)), w), res)
	}
	if res.isConst() {
		return best
	}
	return res
}

func (ip *Interp) boundsCheck(i Value, it intTy, n int) (int, *Term) {
	switch x := i.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			ip.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x), nil
	case *Term:
		c := ip.tc
		if x.w < 63 && uint64(n) > mask(x.w) {
			// always in range when unsigned
			if !it.signed {
				return 0, c.Zext(x, 64)
			}
		}
		inb := c.cmp(OUlt, x, c.Const(uint64(n), x.w))
		if !ip.branch(inb) {
			ip.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		if it.signed {
			return 0, c.Sext(x, 64)
		}
		return 0, c.Zext(x, 64)
	}
	panic("boundsCheck")
}

func (ip *Interp) index(d *dinstr, x, i Value) Value {
	var base []Value
	switch a := x.(type) {
	case string:
		if k, ok := i.(int64); ok {
			if k < 0 || k >= int64(len(a)) {
				ip.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(a)))
			}
			return int64(a[k])
		}
		base = strBytes(a)
	case *SymStr:
		base = a.b
	case Array:
		base = a
	case Slice:
		base = a
	default:
		ip.unsupported("index of %T", x)
	}
	k, t := ip.boundsCheck(i, d.it2, len(base))
	if t == nil {
		return base[k]
	}
	return ip.tableLoad(base, t, d.it.w)
}

func (ip *Interp) indexAddr(d *dinstr, x, i Value) Value {
	var base []Value
	switch a := x.(type) {
	case Slice:
		base = a
	case *Value:
		if a == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = (*a).(Array)
	default:
		ip.unsupported("index address of %T", x)
	}
	k, t := ip.boundsCheck(i, d.it2, len(base))
	if t == nil {
		return &base[k]
	}
	et := d.in.(*ssa.IndexAddr).Type().Underlying().(*types.Pointer).Elem()
	if it := intTyOf(et); it.ok && len(base) <= 512 {
		return &SymPtr{base, t, it.w}
	}
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && len(base) <= 512 {
		return &SymPtr{base, t, 0}
	}
	return &base[ip.concretize(t)]
}

func (ip *Interp) sliceOp(fr *frame, d *dinstr) Value {
	x := ip.get(fr, &d.x)
	var lo, hi, max int64
	bound := func(o *opnd) int64 { return ip.intVal(ip.get(fr, o)) }
	switch a := x.(type) {
	case string, *SymStr:
		n := int64(strLen(a))
		hi = n
		if d.n&1 != 0 {
			lo = bound(&d.y)
		}
		if d.n&2 != 0 {
			hi = bound(&d.z)
		}
		if hi < 0 || hi > n {
			ip.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			ip.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(a, int(lo), int(hi))
	case Slice:
		hi, max = int64(len(a)), int64(cap(a))
		if d.n&1 != 0 {
			lo = bound(&d.y)
		}
		if d.n&2 != 0 {
			hi = bound(&d.z)
		}
		if d.n&4 != 0 {
			max = bound(&d.w)
		}
		if max < 0 || max > int64(cap(a)) {
			ip.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", max, cap(a)))
		}
		if hi < 0 || hi > max {
			ip.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cap(a)))
		}
		if lo < 0 || lo > hi {
			ip.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return a[lo:hi:max]
	case *Value:
		if a == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := (*a).(Array)
		hi, max = int64(len(arr)), int64(len(arr))
		if d.n&1 != 0 {
			lo = bound(&d.y)
		}
		if d.n&2 != 0 {
			hi = bound(&d.z)
		}
		if d.n&4 != 0 {
			max = bound(&d.w)
		}
		if max < 0 || max > int64(len(arr)) || hi < 0 || hi > max || lo < 0 || lo > hi {
			ip.rtPanic("slice bounds out of range")
		}
		return Slice(arr[lo:hi:max])
	}
	ip.unsupported("slice of %T", x)
	return nil
}

// ---------------------------------------------------------------------------
// maps

func (ip *Interp) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		ip.rtPanic("hash of unhashable type " + typeName(i.t))
	}
	key, conc := mapKey(k)
	if conc {
		if i, ok := m.idx[key]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if conc && !isSym(e.k) {
			continue
		}
		if ip.boolVal(ip.eqVal(e.k, k)) {
			return i
		}
	}
	return -1
}

func (ip *Interp) mapSet(m *Map, kt types.Type, k, v Value) {
	if m.frozen && ip.frozenOn {
		ip.frozenWrite()
	}
	if i := ip.mapFind(m, k); i >= 0 {
		old := m.ents[i].v
		if m.born != ip.pathNo {
			ip.onUndo(func() { m.ents[i].v = old })
		}
		m.ents[i].v = v
		return
	}
	key, conc := mapKey(k)
	m.ents = append(m.ents, mapEnt{k, v, true})
	n := len(m.ents) - 1
	if conc {
		m.idx[key] = n
	} else {
		m.nsym++
	}
	m.live++
	if m.born != ip.pathNo {
		ip.onUndo(func() {
			m.ents = m.ents[:n]
			if conc {
				delete(m.idx, key)
			} else {
				m.nsym--
			}
			m.live--
		})
	}
}

func (ip *Interp) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	i := ip.mapFind(m, k)
	if i < 0 {
		return
	}
	if m.frozen && ip.frozenOn {
		ip.frozenWrite()
	}
	key, conc := mapKey(m.ents[i].k)
	m.ents[i].live = false
	if conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	m.live--
	if m.born != ip.pathNo {
		ip.onUndo(func() {
			m.ents[i].live = true
			if conc {
				m.idx[key] = i
			} else {
				m.nsym++
			}
			m.live++
		})
	}
}

func (ip *Interp) lookup(d *dinstr, x, k Value) Value {
	m, ok := x.(*Map)
	if !ok {
		ip.unsupported("lookup in %T", x)
	}
	i := ip.mapFind(m, k)
	var v Value
	if i >= 0 {
		v = m.ents[i].v
	} else {
		v = zero(d.T)
	}
	if d.b {
		return Tuple{v, i >= 0}
	}
	return v
}

func (ip *Interp) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m != nil && ip.mapOrder && m.live > 1 {
		// nondeterministic iteration order: any permutation
		var live []int
		for i := range m.ents {
			if m.ents[i].live {
				live = append(live, i)
			}
		}
		switch {
		case ip.mapBack:
			for i := range live {
				it.order = append(it.order, live[len(live)-1-i])
			}
		case ip.mapBudget == 0 || ip.mapBudget > 0 && ip.choose(2) == 0:
			it.order = live
		case len(live) <= ip.mapOrderMax:
			ip.mapBudget--
			for len(live) > 0 {
				k := 0
				if len(live) > 1 {
					k = int(ip.choose(int64(len(live))))
				}
				it.order = append(it.order, live[k])
				live = append(live[:k:k], live[k+1:]...)
			}
		default:
			ip.mapBudget--
			// any rotation, forwards or backwards
			n := len(live)
			r := int(ip.choose(int64(2 * n)))
			for i := 0; i < n; i++ {
				if r < n {
					it.order = append(it.order, live[(i+r)%n])
				} else {
					it.order = append(it.order, live[(2*n-1-i-r%n)%n])
				}
			}
		}
	}
	return it
}

func (ip *Interp) next(d *dinstr, x Value) Value {
	switch it := x.(type) {
	case *mapIter:
		if it.m == nil {
			return Tuple{false, nil, nil}
		}
		for {
			var i int
			if it.order != nil && it.pos < len(it.order) {
				i = it.order[it.pos]
			} else {
				i = it.pos
				if it.order != nil && it.pos >= len(it.order) {
					// entries added during iteration: not visited
					return Tuple{false, nil, nil}
				}
			}
			if i >= len(it.m.ents) {
				return Tuple{false, nil, nil}
			}
			it.pos++
			e := &it.m.ents[i]
			if e.live {
				return Tuple{true, e.k, e.v}
			}
		}
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Tuple{false, int64(0), int64(0)}
		}
		start := it.pos
		if s, ok := it.s.(string); ok {
			r, w := utf8.DecodeRuneInString(s[start:])
			it.pos += w
			return Tuple{true, int64(start), int64(r)}
		}
		r, w := ip.decodeRune(it.s, start)
		it.pos += w
		return Tuple{true, int64(start), r}
	}
	panic("next")
}

// decodeRune decodes the rune at position i of a possibly symbolic string.
func (ip *Interp) decodeRune(s Value, i int) (Value, int) {
	b := strAt(s, i)
	if t, ok := b.(*Term); ok {
		if ip.branch(ip.tc.cmp(OUlt, t, ip.tc.Const(0x80, 8))) {
			return ip.tc.Zext(t, 32), 1
		}
	} else if b.(int64) < 0x80 {
		return b, 1
	}
	rest := strSlice(s, i, strLen(s))
	if c, ok := rest.(string); ok {
		r, w := utf8.DecodeRuneInString(c)
		return int64(r), w
	}
	fn := ip.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	res := ip.callFn(fn, []Value{rest}, nil).(Tuple)
	w := int(ip.intVal(res[1]))
	if w == 1 {
		return int64(utf8.RuneError), 1 // computed with masks there
	}
	return res[0], w
}

// ---------------------------------------------------------------------------
// conversions

func (ip *Interp) convInt(x Value, from, to intTy) Value {
	switch a := x.(type) {
	case int64:
		return to.norm(a)
	case *Term:
		c := ip.tc
		var r *Term
		switch {
		case to.w == from.w:
			return a
		case to.w < from.w:
			r = c.Trunc(a, to.w)
		case from.signed:
			r = c.Sext(a, to.w)
		default:
			r = c.Zext(a, to.w)
		}
		return simpInt(r, to)
	}
	panic("convInt")
}

func (ip *Interp) convert(d *dinstr, x Value) Value {
	from, to := d.aux.(types.Type).Underlying(), d.T.Underlying()
	if d.it.ok && d.it2.ok {
		if _, ok := x.(UPtr); ok {
			ip.unsupported("pointer arithmetic")
		}
		return ip.convInt(x, d.it, d.it2)
	}
	switch t := to.(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch f := from.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				if f.Info()&types.IsInteger != 0 {
					if v, ok := x.(int64); ok {
						if v < 0 || v > 0x10ffff {
							return "\uFFFD"
						}
						return string(rune(v))
					}
					return ip.runeToStr(ip.convInt(x, d.it, intTy{32, true, true}))
				}
			case *types.Slice:
				s := x.(Slice)
				if intTyOf(f.Elem()).w == 8 {
					return mkStr(s)
				}
				var r Value = ""
				for _, e := range s {
					r = strCat(r, ip.runeToStr(e))
				}
				return r
			}
		}
		if t.Info()&types.IsFloat != 0 {
			if d.it.ok {
				v := ip.intValT(x, d.it)
				if !d.it.signed {
					return float64(uint64(v))
				}
				return float64(v)
			}
			if f, ok := x.(float64); ok {
				if t.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			}
		}
		if t.Info()&types.IsInteger != 0 {
			switch x.(type) {
			case *Value, UPtr:
				return ip.addrOf(x)
			}
			if f, ok := x.(float64); ok {
				if math.IsNaN(f) {
					return int64(math.MinInt64)
				}
				return d.it2.norm(int64(f))
			}
		}
		if t.Kind() == types.UnsafePointer {
			return x
		}
	case *types.Slice:
		if isStr(from) {
			if intTyOf(t.Elem()).w == 8 {
				b := strBytes(x)
				c := int(roundupsize(uintptr(len(b)), true))
				if len(b) == 0 {
					return Slice{}
				}
				s := make(Slice, c)
				for i := range s {
					s[i] = int64(0)
				}
				copy(s, b)
				return s[:len(b):c]
			}
			// []rune
			var out Slice
			n := strLen(x)
			for i := 0; i < n; {
				r, w := ip.decodeRune(x, i)
				out = append(out, r)
				i += w
			}
			if out == nil {
				out = Slice{}
			}
			return out[:len(out):len(out)]
		}
		return x
	case *types.Pointer:
		return x
	}
	switch from.(type) {
	case *types.Basic:
		return x
	}
	ip.unsupported("conversion %v -> %v", from, to)
	return nil
}

func isStr(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ip *Interp) runeToStr(r Value) Value {
	if v, ok := r.(int64); ok {
		return string(rune(v))
	}
	t := r.(*Term)
	c := ip.tc
	if ip.branch(c.cmp(OUlt, t, c.Const(0x80, t.w))) {
		return mkStr([]Value{c.Trunc(t, 8)})
	}
	return string(rune(int32(ip.concretize(t))))
}

// ---------------------------------------------------------------------------
// builtins

func (ip *Interp) builtin(fr *frame, a *callAux, args []Value) Value {
	switch a.builtin.Name() {
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		}
		et := a.argTys[0].Underlying().(*types.Slice).Elem()
		return ip.appendVals(s, add, et)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = strBytes(y)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := append([]Value(nil), src[:n]...)
		for i := 0; i < n; i++ {
			ip.store(&dst[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SymStr:
			return int64(len(x.b))
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.live)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "delete":
		ip.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for i := range x.ents {
					if x.ents[i].live {
						ip.mapDelete(x, x.ents[i].k)
					}
				}
			}
		case Slice:
			et := a.argTys[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				ip.store(&x[i], zero(et))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		it := intTyOf(a.argTys[0])
		for _, y := range args[1:] {
			var less Value
			switch v := r.(type) {
			case float64:
				less = y.(float64) < v
			case string, *SymStr:
				less = ip.strLess(y, r)
			default:
				if x1, ok := r.(int64); ok {
					if y1, ok := y.(int64); ok {
						less = ip.intop(token.LSS, y1, x1, it, it)
						break
					}
				}
				less = ip.symop(token.LSS, y, r, it, it)
			}
			if ip.boolVal(less) == (a.builtin.Name() == "min") {
				r = y
			}
		}
		return r
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		if rf := ip.recoverFrame; rf != nil && rf.panicking && ip.depth == ip.recoverDepth {
			rf.panicking = false
			p := rf.panicV.(targetPanic)
			rf.panicV = nil
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			ip.rtPanicRaw(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "SliceData":
		return UPtr{&sliceData{args[0].(Slice)}}
	case "StringData":
		return UPtr{&strData{args[0]}}
	case "String":
		n := ip.intVal(args[1])
		switch u := args[0].(type) {
		case UPtr:
			switch s := u.v.(type) {
			case *sliceData:
				return mkStr(s.s[:n])
			case *strData:
				return strSlice(s.s, 0, int(n))
			}
		case *Value:
			if u == nil && n == 0 {
				return ""
			}
		}
		ip.unsupported("unsafe.String")
	case "Slice":
		n := ip.intVal(args[1])
		if u, ok := args[0].(UPtr); ok {
			switch s := u.v.(type) {
			case *sliceData:
				return s.s[:n]
			case *strData:
				return Slice(strBytes(strSlice(s.s, 0, int(n))))
			}
		}
		ip.unsupported("unsafe.Slice")
	}
	ip.unsupported("builtin %s on %v", a.builtin.Name(), argKinds(args))
	return nil
}

type sliceData struct{ s Slice }
type strData struct{ s Value }

func argKinds(args []Value) string {
	var s []string
	for _, a := range args {
		s = append(s, fmt.Sprintf("%T", a))
	}
	return strings.Join(s, ",")
}

func (ip *Interp) appendVals(s Slice, add []Value, et types.Type) Slice {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		out := s[:n]
		tmp := append([]Value(nil), add...)
		for i, v := range tmp {
			ip.store(&out[len(s)+i], v)
		}
		return out
	}
	nc := growCap(n, cap(s), uintptr(ip.P.sizes.Sizeof(et)), !hasPointers(et))
	if nc < n {
		nc = n
	}
	out := make(Slice, nc)
	for i, v := range s {
		out[i] = copyVal(v)
	}
	for i, v := range add {
		out[len(s)+i] = copyVal(v)
	}
	z := zero(et)
	agg := false
	switch z.(type) {
	case Struct, Array:
		agg = true
	}
	for i := n; i < nc; i++ {
		if agg {
			out[i] = zero(et)
		} else {
			out[i] = z
		}
	}
	return out[:n:nc]
}
