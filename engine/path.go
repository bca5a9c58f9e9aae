package main

// Path state: decisions, path condition, model, inputs.

import (
	"fmt"
	"time"
)

type decision struct {
	v int64
	d uint8 // 0/1 direction for branches and concretisation; 2 for a free choice; 3/4 for a value excluded/taken
}

type workItem struct {
	harness *harnessRun
	prefix  []decision
	model   []uint64
	taken   time.Time
}

type inputVar struct {
	name string
	kind string // byte, bool, int, choose, rand
	v    *Term  // nil when concrete
	c    int64
	bias int64
}

type pathEnd struct {
	kind string // done assume violation steps depth unsupported unknown
	msg  string
}

type targetPanic struct {
	v Iface
}

type pathState struct {
	prefix []decision
	dec    []decision
	pc     []*Term
	known  map[*Term]bool
	model  []uint64
	nvars  int
	inputs []inputVar
	parent []int32
	cons   map[int32][]*Term

	steps    int64
	depth    int
	observed []Value
	covers   []string
	inconcl  string
	randN    int64
	addrs    map[any]int64
}

func (ip *Interp) findRoot(v int32) int32 {
	for ip.parent[v] != v {
		ip.parent[v] = ip.parent[ip.parent[v]]
		v = ip.parent[v]
	}
	return v
}

func (ip *Interp) addPC(t *Term) {
	if t.op == OTrue {
		return
	}
	if ip.known[t] {
		return
	}
	if t.op == OAnd {
		for _, x := range t.a {
			ip.addPC(x)
		}
		ip.known[t] = true
		return
	}
	ip.pc = append(ip.pc, t)
	ip.known[t] = true
	ip.known[ip.tc.Not(t)] = false
	if len(t.vars) == 0 {
		return
	}
	r := ip.findRoot(t.vars[0])
	for _, v := range t.vars[1:] {
		q := ip.findRoot(v)
		if q != r {
			ip.parent[q] = r
			ip.cons[r] = append(ip.cons[r], ip.cons[q]...)
			delete(ip.cons, q)
		}
	}
	ip.cons[r] = append(ip.cons[r], t)
}

// slice returns the constraints that share variables (transitively) with t.
func (ip *Interp) slice(t *Term) []*Term {
	var out []*Term
	seen := map[int32]bool{}
	for _, v := range t.vars {
		r := ip.findRoot(v)
		if !seen[r] {
			seen[r] = true
			out = append(out, ip.cons[r]...)
		}
	}
	return out
}

// feasible asks whether pc ∧ t is satisfiable; on sat returns a model extending the current one.
func (ip *Interp) feasible(t *Term) (satResult, []uint64) {
	if v, ok := t.isBoolConst(); ok {
		if v {
			return resSat, ip.model
		}
		return resUnsat, nil
	}
	cs := append(ip.slice(t), t)
	res, vars, vals := ip.solver.Check(cs)
	if res != resSat {
		return res, nil
	}
	m := append([]uint64(nil), ip.model...)
	for len(m) < ip.nvars {
		m = append(m, 0)
	}
	for i, v := range vars {
		m[v.k] = vals[i]
	}
	return resSat, m
}

func (ip *Interp) newVar(w uint8, dflt uint64, mkdom func(v *Term) *Term) *Term {
	i := ip.nvars
	ip.nvars++
	ip.parent = append(ip.parent, int32(i))
	v := ip.tc.Var(i, w)
	if i >= len(ip.model) {
		ip.model = append(ip.model, dflt)
	}
	if mkdom != nil {
		ip.addPC(mkdom(v))
	}
	return v
}

func (ip *Interp) enqueue(last decision, model []uint64) {
	p := make([]decision, len(ip.dec)+1)
	copy(p, ip.dec)
	p[len(ip.dec)] = last
	ip.out = append(ip.out, &workItem{harness: ip.h, prefix: p, model: model})
}

// branch decides a symbolic condition, forking the path when both sides are feasible.
func (ip *Interp) branch(t *Term) bool {
	if v, ok := t.isBoolConst(); ok {
		return v
	}
	if v, ok := ip.known[t]; ok {
		return v
	}
	ip.noFork()
	if n := len(ip.dec); n < len(ip.prefix) {
		d := ip.prefix[n]
		ip.dec = append(ip.dec, d)
		if d.d > 1 {
			panic(fmt.Sprintf("decision mismatch (branch) at %d", n))
		}
		if d.d == 1 {
			ip.addPC(t)
			return true
		}
		ip.addPC(ip.tc.Not(t))
		return false
	}
	dir := ip.tc.Eval(t, ip.model) == 1
	other := t
	if dir {
		other = ip.tc.Not(t)
	}
	ip.run.branches++
	res, m := ip.feasible(other)
	switch res {
	case resSat:
		ip.enqueue(decision{0, uint8(1 - b2u(dir))}, m)
	case resUnknown:
		ip.inconcl = "solver gave no answer for a branch"
	}
	ip.dec = append(ip.dec, decision{0, uint8(b2u(dir))})
	if dir {
		ip.addPC(t)
	} else {
		ip.addPC(ip.tc.Not(t))
	}
	return dir
}

// concretize returns the value of a symbolic integer, forking over all its feasible values.
func (ip *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if t.w == 0 {
		return b2u(ip.branch(t))
	}
	for {
		ip.noFork()
		// the model satisfies the whole prefix, so a value fixed before is found alike in the first run and its replays
		v := ip.tc.Eval(t, ip.model)
		eq := ip.tc.Eq(t, ip.tc.Const(v, t.w))
		if k, ok := ip.known[eq]; ok && k {
			return v
		}
		if n := len(ip.dec); n < len(ip.prefix) {
			d := ip.prefix[n]
			ip.dec = append(ip.dec, d)
			if d.d != 3 && d.d != 4 {
				panic(fmt.Sprintf("decision mismatch (value) at %d", n))
			}
			eq := ip.tc.Eq(t, ip.tc.Const(uint64(d.v), t.w))
			if d.d == 4 {
				ip.addPC(eq)
				return uint64(d.v)
			}
			ip.addPC(ip.tc.Not(eq))
			continue
		}
		ip.run.branches++
		res, m := ip.feasible(ip.tc.Not(eq))
		switch res {
		case resSat:
			ip.enqueue(decision{int64(v), 3}, m)
		case resUnknown:
			ip.inconcl = "solver gave no answer while concretising"
		}
		ip.dec = append(ip.dec, decision{int64(v), 4})
		ip.addPC(eq)
		return v
	}
}

// choose is a free n-way choice.
func (ip *Interp) choose(n int64) int64 {
	if n <= 0 {
		panic(pathEnd{"assume", "empty choice"})
	}
	if n == 1 {
		return 0
	}
	ip.noFork()
	if k := len(ip.dec); k < len(ip.prefix) {
		d := ip.prefix[k]
		ip.dec = append(ip.dec, d)
		if d.d != 2 {
			panic(fmt.Sprintf("decision mismatch (choice) at %d", k))
		}
		return d.v
	}
	for v := n - 1; v >= 1; v-- {
		ip.enqueue(decision{v, 2}, append([]uint64(nil), ip.model...))
	}
	ip.dec = append(ip.dec, decision{0, 2})
	return 0
}

func (ip *Interp) assume(t *Term) {
	if v, ok := t.isBoolConst(); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if v, ok := ip.known[t]; ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if ip.tc.Eval(t, ip.model) != 1 {
		res, m := ip.feasible(t)
		switch res {
		case resUnsat:
			panic(pathEnd{"assume", ""})
		case resUnknown:
			panic(pathEnd{"unknown", "solver gave no answer for an assumption"})
		}
		ip.model = m
	}
	ip.addPC(t)
}

// assertT checks that t holds for every value on this path.
func (ip *Interp) assertT(v Value, msg string) {
	ip.run.asserts++
	switch t := v.(type) {
	case bool:
		if !t {
			ip.violate("assert", msg, ip.model)
		}
	case *Term:
		if k, ok := ip.known[t]; ok && k {
			return
		}
		ip.run.assertQueries++
		res, m := ip.feasible(ip.tc.Not(t))
		switch res {
		case resUnsat:
			ip.addPC(t)
			return
		case resUnknown:
			ip.inconcl = "solver gave no answer for an assertion"
			ip.assume(t)
			return
		}
		ip.recordViolation("assert", msg, m)
		ip.assume(t)
	default:
		panic(fmt.Sprintf("assert on %T", v))
	}
}

func (ip *Interp) violate(kind, msg string, m []uint64) {
	ip.recordViolation(kind, msg, m)
	panic(pathEnd{"violation", msg})
}

// replayInputs evaluates the inputs drawn so far under a model.
func (ip *Interp) replayInputs(m []uint64) []replayInput {
	var out []replayInput
	for _, in := range ip.inputs {
		c := in.c
		if in.v != nil {
			u := ip.tc.Eval(in.v, m)
			c = sx(u, 64)
			if in.v.w != 0 && in.v.w < 64 && in.kind == "int" {
				c = sx(u, in.v.w)
			}
			c += in.bias
		}
		out = append(out, replayInput{in.name, in.kind, c})
	}
	return out
}

type replayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

func (ip *Interp) noFork() {
	if ip.inOnce || ip.initing {
		ip.unsupported("a path decision inside Once or package initialisation")
	}
}
