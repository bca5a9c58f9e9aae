package main

// Hash-consed bit-vector and boolean terms.

import (
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OVar Op = iota
	OConst
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

// Term is a node. w==0 means boolean.
type Term struct {
	op   Op
	w    uint8
	k    uint64 // constant value or variable index
	a    []*Term
	id   uint32
	vars []int32 // sorted variable indices occurring in the term

	evEpoch uint32
	ev      uint64
}

type termKey struct {
	op         Op
	w          uint8
	k          uint64
	a0, a1, a2 uint32
}

type TermCtx struct {
	tab   map[termKey]*Term
	ntab  map[string]*Term // for n-ary and/or
	next  uint32
	T, F  *Term
	epoch uint32
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, ntab: map[string]*Term{}, next: 1}
	c.T = c.mk(OTrue, 0, 0)
	c.F = c.mk(OFalse, 0, 0)
	return c
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *TermCtx) mk(op Op, w uint8, k uint64, a ...*Term) *Term {
	var t *Term
	if op == OAnd || op == OOr {
		var sb strings.Builder
		sb.WriteByte(byte(op))
		for _, x := range a {
			sb.WriteString(strconv.FormatUint(uint64(x.id), 36))
			sb.WriteByte(',')
		}
		key := sb.String()
		if t, ok := c.ntab[key]; ok {
			return t
		}
		t = &Term{op: op, w: w, k: k, a: append([]*Term(nil), a...), id: c.next}
		c.ntab[key] = t
	} else {
		key := termKey{op: op, w: w, k: k}
		if len(a) > 0 {
			key.a0 = a[0].id
		}
		if len(a) > 1 {
			key.a1 = a[1].id
		}
		if len(a) > 2 {
			key.a2 = a[2].id
		}
		if t, ok := c.tab[key]; ok {
			return t
		}
		t = &Term{op: op, w: w, k: k, a: append([]*Term(nil), a...), id: c.next}
		c.tab[key] = t
	}
	c.next++
	if op == OVar {
		t.vars = []int32{int32(k)}
	}
	for _, x := range a {
		t.vars = mergeVars(t.vars, x.vars)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Var(i int, w uint8) *Term      { return c.mk(OVar, w, uint64(i)) }
func (c *TermCtx) Const(v uint64, w uint8) *Term { return c.mk(OConst, w, v&mask(w)) }
func (t *Term) isConst() bool                    { return t.op == OConst }
func (t *Term) isBoolConst() (val bool, ok bool) {
	return t.op == OTrue, t.op == OTrue || t.op == OFalse
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TermCtx) Not(x *Term) *Term {
	switch x.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return x.a[0]
	case OUlt:
		return c.mk(OUle, 0, 0, x.a[1], x.a[0])
	case OUle:
		return c.mk(OUlt, 0, 0, x.a[1], x.a[0])
	case OSlt:
		return c.mk(OSle, 0, 0, x.a[1], x.a[0])
	case OSle:
		return c.mk(OSlt, 0, 0, x.a[1], x.a[0])
	}
	return c.mk(ONot, 0, 0, x)
}

func (c *TermCtx) nary(op Op, xs []*Term) *Term {
	zero, unit := c.F, c.T
	if op == OOr {
		zero, unit = c.T, c.F
	}
	seen := map[uint32]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x.id] = true
		if seen[c.Not(x).id] {
			return false
		}
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, out...)
}

func (c *TermCtx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.T
	}
	if x.w == 0 {
		if v, ok := x.isBoolConst(); ok {
			if v {
				return y
			}
			return c.Not(y)
		}
		if v, ok := y.isBoolConst(); ok {
			if v {
				return x
			}
			return c.Not(x)
		}
	}
	if x.isConst() && y.isConst() {
		return c.F
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case OZext:
			in := x.a[0]
			if y.k > mask(in.w) {
				return c.F
			}
			return c.Eq(in, c.Const(y.k, in.w))
		case OSext:
			in := x.a[0]
			v := uint64(sx(y.k&mask(in.w), in.w)) & mask(x.w)
			if v != y.k {
				return c.F
			}
			return c.Eq(in, c.Const(y.k, in.w))
		case OAdd:
			if x.a[1].isConst() {
				return c.Eq(x.a[0], c.Const(y.k-x.a[1].k, x.w))
			}
		case OIte:
			if x.a[1].isConst() && x.a[2].isConst() {
				p, q := x.a[1].k == y.k, x.a[2].k == y.k
				switch {
				case p && q:
					return c.T
				case p:
					return x.a[0]
				case q:
					return c.Not(x.a[0])
				default:
					return c.F
				}
			}
			if x.a[1].isConst() {
				if x.a[1].k == y.k {
					return c.Or(x.a[0], c.Eq(x.a[2], y))
				}
				return c.And(c.Not(x.a[0]), c.Eq(x.a[2], y))
			}
		}
	} else if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		return c.Eq(x.a[0], y.a[0])
	} else if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OEq, 0, 0, x, y)
}

func (c *TermCtx) cmp(op Op, x, y *Term) *Term {
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	if x.isConst() && y.isConst() {
		var r bool
		switch op {
		case OUlt:
			r = x.k < y.k
		case OUle:
			r = x.k <= y.k
		case OSlt:
			r = sx(x.k, x.w) < sx(y.k, y.w)
		case OSle:
			r = sx(x.k, x.w) <= sx(y.k, y.w)
		}
		return c.Bool(r)
	}
	// zext operands: values are non-negative and bounded
	if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return c.cmp(uop, x.a[0], y.a[0])
	}
	if x.op == OZext && y.isConst() {
		in := x.a[0]
		v, m := y.k, mask(in.w)
		if op == OSlt || op == OSle {
			s := sx(v, y.w)
			if s < 0 {
				return c.F
			}
		}
		if v > m {
			return c.T
		}
		if op == OUlt || op == OSlt {
			return c.cmp(OUlt, in, c.Const(v, in.w))
		}
		return c.cmp(OUle, in, c.Const(v, in.w))
	}
	if y.op == OZext && x.isConst() {
		in := y.a[0]
		v, m := x.k, mask(in.w)
		if op == OSlt || op == OSle {
			if sx(v, x.w) < 0 {
				return c.T
			}
		}
		if v > m {
			return c.F
		}
		if op == OUlt || op == OSlt {
			return c.cmp(OUlt, c.Const(v, in.w), in)
		}
		return c.cmp(OUle, c.Const(v, in.w), in)
	}
	switch op {
	case OUlt:
		if y.isConst() && y.k == 0 {
			return c.F
		}
		if x.isConst() && x.k == mask(x.w) {
			return c.F
		}
	case OUle:
		if x.isConst() && x.k == 0 {
			return c.T
		}
		if y.isConst() && y.k == mask(y.w) {
			return c.T
		}
	}
	return c.mk(op, 0, 0, x, y)
}

func (c *TermCtx) Ite(b, x, y *Term) *Term {
	if v, ok := b.isBoolConst(); ok {
		if v {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return c.Or(c.And(b, x), c.And(c.Not(b), y))
	}
	return c.mk(OIte, x.w, 0, b, x, y)
}

func foldBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("foldBin")
}

func (c *TermCtx) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() {
		return c.Const(foldBin(op, x.k, y.k, w), w)
	}
	if x.isConst() && (op == OAdd || op == OMul || op == OBand || op == OBor || op == OBxor) {
		x, y = y, x
	}
	if y.isConst() {
		switch op {
		case OAdd:
			if y.k == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].isConst() {
				return c.Bin(OAdd, x.a[0], c.Const(x.a[1].k+y.k, w))
			}
		case OSub:
			return c.Bin(OAdd, x, c.Const(-y.k, w))
		case OMul:
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
		case OBand:
			if y.k == 0 {
				return y
			}
			if y.k == mask(w) {
				return x
			}
		case OBor, OBxor, OShl, OLshr, OAshr:
			if y.k == 0 {
				return x
			}
		}
		// push through ite with constants
		if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
			return c.Ite(x.a[0], c.Bin(op, x.a[1], y), c.Bin(op, x.a[2], y))
		}
	}
	if x == y && (op == OSub || op == OBxor) {
		return c.Const(0, w)
	}
	return c.mk(op, w, 0, x, y)
}

func (c *TermCtx) Bnot(x *Term) *Term {
	if x.isConst() {
		return c.Const(^x.k, x.w)
	}
	return c.mk(OBnot, x.w, 0, x)
}

func (c *TermCtx) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(x.k, w)
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	return c.mk(OZext, w, 0, x)
}

func (c *TermCtx) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(uint64(sx(x.k, x.w)), w)
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	return c.mk(OSext, w, 0, x)
}

func (c *TermCtx) Trunc(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(x.k, w)
	}
	if x.op == OZext || x.op == OSext {
		in := x.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return c.Trunc(in, w)
		}
		if x.op == OZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	}
	return c.mk(OTrunc, w, 0, x)
}

// Eval evaluates t under the model (missing variables are 0). Booleans are 0/1.
func (c *TermCtx) Eval(t *Term, model []uint64) uint64 {
	c.epoch++
	return c.eval(t, model)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case OVar:
		if int(t.k) < len(m) {
			return m[t.k] & maskB(t.w)
		}
		return 0
	case OConst:
		return t.k
	case OTrue:
		return 1
	case OFalse:
		return 0
	}
	if t.evEpoch == c.epoch {
		return t.ev
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - c.eval(t.a[0], m)
	case OAnd:
		r = 1
		for _, x := range t.a {
			if c.eval(x, m) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, x := range t.a {
			if c.eval(x, m) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(c.eval(t.a[0], m) == c.eval(t.a[1], m))
	case OUlt:
		r = b2u(c.eval(t.a[0], m) < c.eval(t.a[1], m))
	case OUle:
		r = b2u(c.eval(t.a[0], m) <= c.eval(t.a[1], m))
	case OSlt:
		w := t.a[0].w
		r = b2u(sx(c.eval(t.a[0], m), w) < sx(c.eval(t.a[1], m), w))
	case OSle:
		w := t.a[0].w
		r = b2u(sx(c.eval(t.a[0], m), w) <= sx(c.eval(t.a[1], m), w))
	case OIte:
		if c.eval(t.a[0], m) == 1 {
			r = c.eval(t.a[1], m)
		} else {
			r = c.eval(t.a[2], m)
		}
	case OBnot:
		r = ^c.eval(t.a[0], m) & mask(t.w)
	case OZext:
		r = c.eval(t.a[0], m)
	case OSext:
		r = uint64(sx(c.eval(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OTrunc:
		r = c.eval(t.a[0], m) & mask(t.w)
	default:
		r = foldBin(t.op, c.eval(t.a[0], m), c.eval(t.a[1], m), t.w)
	}
	t.ev, t.evEpoch = r, c.epoch
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// smt prints a conjunction of terms as a canonical SMT-LIB script body: variables
// are renamed in order of first occurrence, shared nodes become let bindings.
type smtPrinter struct {
	ren  map[int32]int
	vars []*Term // in canonical order
	refs map[*Term]int
	name map[*Term]string
	let  []string
	sb   strings.Builder
}

func (p *smtPrinter) count(t *Term) {
	if len(t.a) == 0 {
		if t.op == OVar {
			if _, ok := p.ren[int32(t.k)]; !ok {
				p.ren[int32(t.k)] = len(p.vars)
				p.vars = append(p.vars, t)
			}
		}
		return
	}
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, x := range t.a {
		p.count(x)
	}
}

func (p *smtPrinter) str(t *Term) string {
	if n, ok := p.name[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case OVar:
		return "v" + strconv.Itoa(p.ren[int32(t.k)])
	case OConst:
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OZext:
		s = "((_ zero_extend " + strconv.Itoa(int(t.w-t.a[0].w)) + ") " + p.str(t.a[0]) + ")"
	case OSext:
		s = "((_ sign_extend " + strconv.Itoa(int(t.w-t.a[0].w)) + ") " + p.str(t.a[0]) + ")"
	case OTrunc:
		s = "((_ extract " + strconv.Itoa(int(t.w-1)) + " 0) " + p.str(t.a[0]) + ")"
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range t.a {
			sb.WriteByte(' ')
			sb.WriteString(p.str(x))
		}
		sb.WriteByte(')')
		s = sb.String()
	}
	if p.refs[t] > 1 {
		n := "t" + strconv.Itoa(len(p.let))
		p.let = append(p.let, "("+n+" "+s+")")
		p.name[t] = n
		return n
	}
	return s
}

func smtScript(cs []*Term) (body string, vars []*Term) {
	p := &smtPrinter{ren: map[int32]int{}, refs: map[*Term]int{}, name: map[*Term]string{}}
	for _, c := range cs {
		p.count(c)
	}
	var parts []string
	for _, c := range cs {
		parts = append(parts, p.str(c))
	}
	var sb strings.Builder
	for i, v := range p.vars {
		sb.WriteString("(declare-const v" + strconv.Itoa(i) + " ")
		if v.w == 0 {
			sb.WriteString("Bool)\n")
		} else {
			sb.WriteString("(_ BitVec " + strconv.Itoa(int(v.w)) + "))\n")
		}
	}
	sb.WriteString("(assert ")
	for _, l := range p.let {
		sb.WriteString("(let (" + l + ") ")
	}
	sb.WriteString("(and true")
	for _, q := range parts {
		sb.WriteByte(' ')
		sb.WriteString(q)
	}
	sb.WriteByte(')')
	for range p.let {
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
	return sb.String(), p.vars
}

var _ = bits.Len64
