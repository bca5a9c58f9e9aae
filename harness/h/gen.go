package h

import (
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// Gen generates terms: every composition of exactly n operators over the given leaves.
type Gen struct {
	Ops    string        // s sequence, o choice, q quantifier, l lookahead, n name, d delimiter
	Lit    string        // alphabet of the literals
	LitLen int           // their maximal length (default 1)
	Leaves []parser.Term // further leaves
	NoLit  bool          // no literals of Lit
	Names  []string      // names for n
	Quants [][2]int      // bounds for q
	Delims []parser.Delim
}

var DefaultQuants = [][2]int{{0, 1}, {0, 0}, {1, 0}, {2, 3}}

func (g *Gen) leaf() parser.Term {
	n := len(g.Leaves) + 1
	if g.NoLit {
		n--
	}
	i := vsym.Choose("leaf", n)
	if i < len(g.Leaves) {
		return g.Leaves[i]
	}
	n = 1
	if g.LitLen > 1 {
		n += vsym.Choose("litlen", g.LitLen)
	}
	return parser.S(vsym.Bytes("lit", n, g.Lit))
}

func (g *Gen) two(n int) (a, b parser.Term) {
	k := 0
	if n > 0 {
		k = vsym.Choose("split", n+1)
	}
	return g.Term(k), g.Term(n - k)
}

// Term is a term of exactly n operators.
func (g *Gen) Term(n int) parser.Term {
	if n == 0 {
		return g.leaf()
	}
	switch g.Ops[vsym.Choose("op", len(g.Ops))] {
	case 's':
		a, b := g.two(n - 1)
		return parser.Seq{a, b}
	case 'o':
		a, b := g.two(n - 1)
		return parser.Oneof{a, b}
	case 'q':
		q := g.Quants[vsym.Choose("bounds", len(g.Quants))]
		return parser.Quant{Term: g.Term(n - 1), Min: q[0], Max: q[1]}
	case 'l':
		return parser.LookAhead{Term: g.Term(n - 1)}
	case 'n':
		return parser.Named{Name: g.Names[vsym.Choose("name", len(g.Names))], Term: g.Term(n - 1)}
	case 'd':
		d := g.Delims[vsym.Choose("delim", len(g.Delims))]
		d.Term, d.Sep = g.two(n - 1)
		return d
	}
	panic("bad op")
}

// UpTo is a term of at most n operators.
func (g *Gen) UpTo(n int) parser.Term { return g.Term(vsym.Choose("ops", n+1)) }

// Rename replaces every reference to @ in t.
func Rename(t parser.Term, to parser.Rule) parser.Term {
	list := func(ts []parser.Term) []parser.Term {
		var r []parser.Term
		for _, x := range ts {
			r = append(r, Rename(x, to))
		}
		return r
	}
	switch t := t.(type) {
	case parser.Rule:
		if t == parser.At {
			return to
		}
	case parser.Seq:
		return parser.Seq(list(t))
	case parser.Oneof:
		return parser.Oneof(list(t))
	case parser.Delim:
		t.Term, t.Sep = Rename(t.Term, to), Rename(t.Sep, to)
		return t
	case parser.Quant:
		t.Term = Rename(t.Term, to)
		return t
	case parser.Named:
		t.Term = Rename(t.Term, to)
		return t
	case parser.LookAhead:
		t.Term = Rename(t.Term, to)
		return t
	}
	return t
}

// Flat is a choice of ts and t; a choice t joins in.
func Flat(ts parser.Oneof, t parser.Term) parser.Term {
	if o, ok := t.(parser.Oneof); ok {
		return append(ts, o...)
	}
	return append(ts, t)
}

// Clash finds an unnamed associative delimiter that is the term of one of the same direction and tag, tag being that of
// t: their parse trees can't be told apart.
func Clash(t parser.Term, tag string) bool {
	list := func(ts []parser.Term) bool {
		for _, x := range ts {
			if Clash(x, ":") {
				return true
			}
		}
		return false
	}
	switch t := t.(type) {
	case parser.Delim:
		if n, ok := t.Term.(parser.Delim); ok && tag == ":" && n.Assoc == t.Assoc && t.Assoc != 0 {
			return true
		}
		return Clash(t.Term, ":") || Clash(t.Sep, ":")
	case parser.Seq:
		return list(t)
	case parser.Oneof:
		return list(t)
	case parser.Quant:
		return Clash(t.Term, ":")
	case parser.LookAhead:
		return Clash(t.Term, ":")
	case parser.CutPoint:
		return Clash(t.Term, tag)
	case parser.ScopedGrammar:
		for _, x := range t.Grammar {
			if Clash(x, "") {
				return true
			}
		}
		return Clash(t.Term, tag)
	case parser.Named:
		if tag == ":" {
			tag = t.Name
		}
		return Clash(t.Term, tag)
	}
	return false
}
