package h

import (
	"sort"
	"strconv"

	"github.com/arr-ai/wbnf/parser"
)

// Print writes a term in grammar syntax, with the parentheses its place needs.
// lvl: 0 stack or nested grammar, 1 choice, 2 sequence, 3 named quant*, 4 atom.
func Print(t parser.Term, lvl int) string {
	own, s := 4, ""
	switch t := t.(type) {
	case parser.Stack:
		own, s = 0, joined(t, " > ", 1)
	case parser.Oneof:
		own, s = 1, joined(t, " | ", 2)
	case parser.Seq:
		if len(t) == 0 {
			return "()"
		}
		own, s = 2, joined(t, " ", 3)
	case parser.ScopedGrammar:
		return "(" + Print(t.Term, 1) + " { " + Source(t.Grammar) + " })"
	case parser.Quant, parser.Delim:
		own, s = 3, postfix(t)
	case parser.Named:
		own, s = 3, t.Name+"="+Print(t.Term, 4)
	case parser.S:
		s = Quote(string(t))
	case parser.RE:
		s = "/{" + string(t) + "}"
	case parser.Rule:
		s = string(t)
	case parser.REF:
		s = "%" + t.Ident
		if t.Default != nil {
			s += "=" + Print(t.Default, 4)
		}
	case parser.ExtRef:
		s = "%%" + string(t)
	case parser.LookAhead:
		s = "(?=" + Print(t.Term, 0) + ")"
	case parser.CutPoint:
		return Print(t.Term, lvl)
	default:
		panic("Print: unsupported term")
	}
	if own < lvl {
		return "(" + s + ")"
	}
	return s
}

func joined(ts []parser.Term, sep string, lvl int) string {
	if len(ts) < 2 {
		panic("Print: a list of fewer than two terms has no syntax of its own")
	}
	s := ""
	for i, t := range ts {
		if i > 0 {
			s += sep
		}
		s += Print(t, lvl)
	}
	return s
}

// postfix writes a chain of postfix operators: of several in a row the last applies to the term first.
func postfix(t parser.Term) string {
	ops := ""
	for {
		switch x := t.(type) {
		case parser.Quant:
			ops += quant(x)
			t = x.Term
			continue
		case parser.Delim:
			o := x.Assoc.String()
			if x.CanStartWithSep {
				o += ","
			}
			o += Print(x.Sep, 4-named(x.Sep))
			if x.CanEndWithSep {
				o += ","
			}
			ops += o
			t = x.Term
			continue
		}
		return Print(t, 4-named(t)) + ops
	}
}

func named(t parser.Term) int {
	if _, ok := t.(parser.Named); ok {
		return 1
	}
	return 0
}

func quant(q parser.Quant) string {
	switch {
	case q.Min == 0 && q.Max == 0:
		return "*"
	case q.Min == 0 && q.Max == 1:
		return "?"
	case q.Min == 1 && q.Max == 0:
		return "+"
	}
	s := "{"
	if q.Min > 0 {
		s += strconv.Itoa(q.Min)
	}
	s += ","
	if q.Max > 0 {
		s += strconv.Itoa(q.Max)
	}
	return s + "}"
}

// Quote writes a double-quoted literal.
func Quote(s string) string {
	r := `"`
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			r += `\`
		}
		r += s[i : i+1]
	}
	return r + `"`
}

// Source writes a grammar in grammar syntax, rules in sorted order.
func Source(g parser.Grammar) string {
	var names []string
	for n := range g {
		names = append(names, string(n))
	}
	sort.Strings(names)
	s := ""
	for i, n := range names {
		if i > 0 {
			s += " "
		}
		t := g[parser.Rule(n)]
		s += n + " -> " + Print(t, 0) + ";"
	}
	return s
}
