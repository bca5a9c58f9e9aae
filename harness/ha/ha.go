// Package ha says what the syntax tree of a parse has to be.
package ha

import (
	"strconv"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// A is a syntax tree: a token or a mark, or what there is under each name.
type A struct {
	Token *parser.Scanner
	Mark  any
	Names []string
	Kids  map[string][]*A
	many  map[string]int // how often each name can occur
}

func (a *A) add(name string, k *A) {
	if a.Kids == nil {
		a.Kids = map[string][]*A{}
	}
	if _, ok := a.Kids[name]; !ok {
		a.Names = append(a.Names, name)
	}
	a.Kids[name] = append(a.Kids[name], k)
}

type layer struct {
	rule  parser.Rule
	stack parser.Stack
	i     int
	env   *h.Env
}

// stackOf is the name of the rule a layer belongs to.
func stackOf(tag string) string {
	for i := 0; i < len(tag); i++ {
		if tag[i:i+1] == "@" && i > 0 {
			return tag[:i]
		}
	}
	return tag
}

func nameOf(r parser.Rule, l *layer) string {
	if r == parser.At && l != nil {
		return string(l.rule)
	}
	return stackOf(string(r))
}

// Of is the syntax tree of the parse tree te of rule r of g.
func Of(g parser.Grammar, r parser.Rule, te parser.TreeElement) *A {
	env := &h.Env{G: g}
	a := &A{}
	body(env, r, nil, te, a)
	return a
}

// body converts the tree of rule r.
func body(e *h.Env, r parser.Rule, l *layer, te parser.TreeElement, a *A) {
	if r == parser.At && l != nil {
		l = &layer{l.rule, l.stack, (l.i + 1) % len(l.stack), l.env}
	} else {
		t, de := e.Lookup(r)
		st, ok := t.(parser.Stack)
		if !ok {
			convert(de, t, t, nil, te, a)
			return
		}
		l = &layer{r, st, 0, de}
	}
	t := l.stack[l.i]
	convert(l.env, t, t, l, te, a)
}

// convert adds what term t of the branch a contributes; whole is the term of all of the branch.
func convert(e *h.Env, t, whole parser.Term, l *layer, te parser.TreeElement, a *A) {
	if a.many == nil {
		a.many = map[string]int{}
		count(whole, l, 1, a.many)
	}
	switch t := t.(type) {
	case parser.S, parser.RE:
		s := te.(parser.Scanner)
		a.add("", &A{Token: &s})
	case parser.Rule:
		k := &A{}
		body(e, t, l, te, k)
		a.add(nameOf(t, l), k)
	case parser.Named:
		k := &A{}
		convert(e, t.Term, t.Term, l, te, k)
		a.add(t.Name, k)
	case parser.CutPoint:
		convert(e, t.Term, whole, l, te, a)
	case parser.Seq:
		for i, k := range te.(parser.Node).Children {
			convert(e, t[i], whole, l, k, a)
		}
	case parser.Oneof:
		n := te.(parser.Node)
		c := n.Extra.(parser.Choice)
		a.add("@choice", &A{Mark: c})
		convert(e, t[c], whole, l, n.Children[0], a)
	case parser.Quant:
		for _, k := range te.(parser.Node).Children {
			convert(e, t.Term, whole, l, k, a)
		}
	case parser.LookAhead:
		convert(e, t.Term, whole, l, te.(parser.Node).Children[0], a)
	case parser.Delim:
		n := te.(parser.Node)
		for i, k := range n.Children {
			m, node := k.(parser.Node)
			_, empty := k.(parser.Empty)
			switch {
			case empty && i == 0:
				a.add("@empty", &A{Mark: "@prefix"})
			case empty:
				a.add("@empty", &A{Mark: "@suffix"})
			case node && (i == 0 && n.Extra == parser.LeftToRight || i == len(n.Children)-1 && n.Extra == parser.RightToLeft) && m.Extra == n.Extra && m.Tag == n.Tag:
				b := &A{}
				convert(e, t, t, l, k, b)
				a.add(stackOf(n.Tag), b)
			case i%2 == 0:
				convert(e, t.Term, whole, l, k, a)
			default:
				convert(e, t.Sep, whole, l, k, a)
			}
		}
	case parser.REF:
		a.add(t.Ident, text(t.Ident, te))
	case parser.ScopedGrammar:
		convert(&h.Env{G: t.Grammar, Up: e}, t.Term, whole, l, te, a)
	default:
		vsym.Fail("harness: unsupported term")
	}
}

// text is the tree of a back-reference.
func text(name string, te parser.TreeElement) *A {
	if s, ok := te.(parser.Scanner); ok {
		return &A{Token: &s}
	}
	a := &A{many: map[string]int{name: 2}}
	for _, k := range te.(parser.Node).Children {
		a.add(name, text(name, k))
	}
	return a
}

const either = 100

// count adds to n how often each name can occur in a branch of term t.
func count(t parser.Term, l *layer, times int, n map[string]int) {
	switch t := t.(type) {
	case parser.S, parser.RE:
		n[""] += times
	case parser.Rule:
		n[nameOf(t, l)] += times
	case parser.Named:
		n[t.Name] += times
	case parser.CutPoint:
		count(t.Term, l, times, n)
	case parser.LookAhead:
		count(t.Term, l, times, n)
	case parser.Seq:
		for _, x := range t {
			count(x, l, times, n)
		}
	case parser.Oneof:
		max := map[string]int{}
		for _, x := range t {
			m := map[string]int{}
			count(x, l, times, m)
			for name, k := range m {
				if k > max[name] {
					max[name] = k
				}
			}
		}
		for name, k := range max {
			n[name] += k
		}
	case parser.Quant:
		if t.Max != 1 {
			times = 2
		}
		count(t.Term, l, times, n)
	case parser.Delim:
		count(t.Term, l, 2, n)
		count(t.Sep, l, 2, n)
		if t.Assoc != parser.NonAssociative {
			n[":"] += times
		}
	case parser.REF:
		n[t.Ident] += 2
	case parser.ScopedGrammar:
		m := map[string]int{}
		count(t.Term, l, times, m)
		for name := range m {
			n[name] = either
		}
	}
}

// Check compares the syntax tree of rule r.
func Check(got ast.Branch, want *A, rule string) {
	if rule != "" {
		one, ok := got["@rule"].(ast.One)
		vsym.Assert(ok, "the rule is not recorded")
		x, ok := one.Node.(ast.Extra)
		vsym.Assert(ok && x.Data == parser.Rule(rule), "another rule is recorded")
	}
	same(got, want, rule != "", "top")
}

func same(got ast.Branch, want *A, root bool, where string) {
	n := len(want.Names)
	if root {
		n++
	}
	vsym.Assert(len(got) == n, "more or fewer names than due in "+where)
	for _, name := range want.Names {
		due := want.Kids[name]
		c, ok := got[name]
		vsym.Assert(ok, "nothing under the name "+name+" in "+where)
		var kids []ast.Node
		switch c := c.(type) {
		case ast.One:
			kids = []ast.Node{c.Node}
			vsym.Assert(name != "@choice" && name != "@empty", "choices and markers are a list in "+where)
			vsym.Assert(want.many[name] <= 1 || want.many[name] >= either, "a single child under a name that can occur several times: "+name+" in "+where)
		case ast.Many:
			kids = c
			vsym.Assert(want.many[name] > 1 || name == "@choice" || name == "@empty", "a list under a name that can occur only once: "+name+" in "+where)
		}
		vsym.Assert(len(kids) == len(due), "number of children under the name "+name+" in "+where)
		for i, k := range kids {
			here := where + "." + name + strconv.Itoa(i)
			switch k := k.(type) {
			case ast.Leaf:
				s := parser.Scanner(k)
				vsym.Assert(due[i].Token != nil, "a token where none is due: "+here)
				vsym.Assert(s.Offset() == due[i].Token.Offset() && s.String() == due[i].Token.String(), "another token: "+here)
			case ast.Extra:
				vsym.Assert(due[i].Mark == k.Data, "another choice or marker: "+here)
			case ast.Branch:
				vsym.Assert(due[i].Token == nil && due[i].Mark == nil, "a branch where none is due: "+here)
				same(k, due[i], false, here)
			}
		}
	}
}
