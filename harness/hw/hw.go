// Package hw holds helpers for harnesses that go through grammar text.
package hw

import (
	"strconv"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

type compiled struct {
	p   parser.Parsers
	err error
}

// Compile is wbnf.Compile of a text that is not symbolic.
func Compile(text string) (parser.Parsers, error) {
	c := vsym.Memo(text, func(text string) any {
		p, err := wbnf.Compile(text, nil)
		return compiled{p, err}
	}).(compiled)
	return c.p, c.err
}

// MustCompile is Compile of a text that has to be accepted.
func MustCompile(text string) parser.Parsers {
	vsym.Note(func() string { return "text: " + text })
	p, err := Compile(text)
	vsym.Assert(err == nil, "refuses a well-formed grammar")
	return p
}

// Strip returns the term without its cut points.
func Strip(t parser.Term) parser.Term {
	switch t := t.(type) {
	case parser.CutPoint:
		return Strip(t.Term)
	case parser.Seq:
		return parser.Seq(strips(t))
	case parser.Oneof:
		return parser.Oneof(strips(t))
	case parser.Stack:
		return parser.Stack(strips(t))
	case parser.Quant:
		t.Term = Strip(t.Term)
		return t
	case parser.Delim:
		t.Term, t.Sep = Strip(t.Term), Strip(t.Sep)
		return t
	case parser.Named:
		t.Term = Strip(t.Term)
		return t
	case parser.LookAhead:
		t.Term = Strip(t.Term)
		return t
	case parser.ScopedGrammar:
		t.Term, t.Grammar = Strip(t.Term), StripAll(t.Grammar)
		return t
	}
	return t
}

func strips(ts []parser.Term) []parser.Term {
	r := make([]parser.Term, 0, len(ts))
	for _, t := range ts {
		r = append(r, Strip(t))
	}
	return r
}

// StripAll is Strip of every rule.
func StripAll(g parser.Grammar) parser.Grammar {
	r := parser.Grammar{}
	for n, t := range g {
		r[n] = Strip(t)
	}
	return r
}

// SameTerm asserts that two terms are the same.
func SameTerm(got, want parser.Term, what string) {
	switch w := want.(type) {
	case nil:
		vsym.Assert(got == nil, what+": a term where none is due")
	case parser.Rule:
		g, ok := got.(parser.Rule)
		vsym.Assert(ok && g == w, what+": rule reference")
	case parser.S:
		g, ok := got.(parser.S)
		vsym.Assert(ok, what+": a literal is due")
		vsym.Assert(g == w, what+": text of a literal")
	case parser.RE:
		g, ok := got.(parser.RE)
		vsym.Assert(ok && g == w, what+": pattern")
	case parser.REF:
		g, ok := got.(parser.REF)
		vsym.Assert(ok && g.Ident == w.Ident, what+": back-reference")
		SameTerm(g.Default, w.Default, what)
	case parser.ExtRef:
		g, ok := got.(parser.ExtRef)
		vsym.Assert(ok && g == w, what+": external reference")
	case parser.Seq:
		g, ok := got.(parser.Seq)
		vsym.Assert(ok, what+": a sequence is due")
		sameTerms(g, w, what)
	case parser.Oneof:
		g, ok := got.(parser.Oneof)
		vsym.Assert(ok, what+": a choice is due")
		sameTerms(g, w, what)
	case parser.Stack:
		g, ok := got.(parser.Stack)
		vsym.Assert(ok, what+": a stack is due")
		sameTerms(g, w, what)
	case parser.Quant:
		g, ok := got.(parser.Quant)
		vsym.Assert(ok, what+": a repetition is due")
		vsym.Assert(g.Min == w.Min && g.Max == w.Max, what+": bounds of a repetition")
		SameTerm(g.Term, w.Term, what)
	case parser.Delim:
		g, ok := got.(parser.Delim)
		vsym.Assert(ok, what+": a delimited repetition is due")
		vsym.Assert(g.Assoc == w.Assoc && g.CanStartWithSep == w.CanStartWithSep && g.CanEndWithSep == w.CanEndWithSep, what+": options of a delimiter")
		SameTerm(g.Term, w.Term, what)
		SameTerm(g.Sep, w.Sep, what)
	case parser.Named:
		g, ok := got.(parser.Named)
		vsym.Assert(ok && g.Name == w.Name, what+": name")
		SameTerm(g.Term, w.Term, what)
	case parser.LookAhead:
		g, ok := got.(parser.LookAhead)
		vsym.Assert(ok, what+": a lookahead is due")
		SameTerm(g.Term, w.Term, what)
	case parser.ScopedGrammar:
		g, ok := got.(parser.ScopedGrammar)
		vsym.Assert(ok, what+": a nested grammar is due")
		SameTerm(g.Term, w.Term, what)
		SameGrammar(g.Grammar, w.Grammar, what)
	default:
		vsym.Fail("harness: unsupported term")
	}
}

func sameTerms(got, want []parser.Term, what string) {
	vsym.Assert(len(got) == len(want), what+": number of terms")
	for i, w := range want {
		SameTerm(got[i], w, what)
	}
}

// SameGrammar asserts that two grammars are the same.
func SameGrammar(got, want parser.Grammar, what string) {
	vsym.Assert(len(got) == len(want), what+": number of rules")
	for n, w := range want {
		g, ok := got[n]
		vsym.Assert(ok, what+": missing rule")
		SameTerm(g, w, what)
	}
}

// Unstack writes the stacks of a grammar out as Compile documents it: layer i of rule r is rule r@i, whose @ is the next layer.
func Unstack(g parser.Grammar) parser.Grammar {
	r := parser.Grammar{}
	for n, t := range g {
		st, ok := t.(parser.Stack)
		if !ok {
			r[n] = unstackIn(t)
			continue
		}
		name := func(i int) parser.Rule {
			if i %= len(st); i > 0 {
				return n + parser.Rule("@"+strconv.Itoa(i))
			}
			return n
		}
		for i, l := range st {
			r[name(i)] = unstackIn(h.Rename(l, name(i+1)))
		}
	}
	return r
}

func unstackIn(t parser.Term) parser.Term { return t }

// SameTree asserts that two trees are the same.
func SameTree(a, b parser.TreeElement, what string) {
	switch a := a.(type) {
	case parser.Node:
		b, ok := b.(parser.Node)
		vsym.Assert(ok, what+": a node against something else")
		vsym.Assert(a.Tag == b.Tag, what+": tags")
		vsym.Assert(a.Extra == b.Extra, what+": choices or associativities")
		vsym.Assert(len(a.Children) == len(b.Children), what+": numbers of children")
		for i := range a.Children {
			SameTree(a.Children[i], b.Children[i], what)
		}
	case parser.Scanner:
		b, ok := b.(parser.Scanner)
		vsym.Assert(ok, what+": a token against something else")
		vsym.Assert(a.Offset() == b.Offset(), what+": offsets of tokens")
		vsym.Assert(a.String() == b.String(), what+": texts of tokens")
	case parser.Empty:
		_, ok := b.(parser.Empty)
		vsym.Assert(ok, what+": a marker against something else")
	default:
		vsym.Fail(what + ": foreign tree element")
	}
}
