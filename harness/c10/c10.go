package c10

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

var lits = []parser.Term{parser.S("x"), parser.S("y"), parser.S("z")}

// check compares the compiled text, which commits, with the plain grammar, which does not.
func check(gr parser.Grammar, src string) {
	p := hw.MustCompile(h.Source(gr))
	q := gr.Compile(nil)
	vsym.Note(func() string { return "source: " + src + "   grammar: " + p.Grammar().String() })
	for _, t := range p.Grammar() {
		unique(t, gr)
	}
	got, err1 := p.Parse("a", parser.NewScanner(src))
	want, err2 := q.Parse("a", parser.NewScanner(src))
	if err2 == nil {
		vsym.Cover("parsed")
		vsym.Assert(err1 == nil, "refuses a text the grammar without commit points accepts")
		hw.SameTree(got, want, "with and without commit points")
		return
	}
	vsym.Cover("refused")
	vsym.Assert(err1 != nil, "accepts a text the grammar without commit points refuses")
}

// unique asserts that every commit point of t is a literal with a single place in g where it can be matched and consumed.
func unique(t parser.Term, g parser.Grammar) {
	switch t := t.(type) {
	case parser.CutPoint:
		s, ok := t.Term.(parser.S)
		vsym.Assert(ok, "a commit point that is not a literal")
		n := 0
		for _, u := range g {
			n += count(u, s)
		}
		vsym.Assert(n == 1, "a commit point at a literal that can be matched in several places")
	case parser.Seq:
		for _, u := range t {
			unique(u, g)
		}
	case parser.Oneof:
		for _, u := range t {
			unique(u, g)
		}
	case parser.Quant:
		unique(t.Term, g)
	case parser.Delim:
		unique(t.Term, g)
		unique(t.Sep, g)
	case parser.Named:
		unique(t.Term, g)
	case parser.ScopedGrammar:
		unique(t.Term, g)
		for _, u := range t.Grammar {
			unique(u, g)
		}
	}
}

func count(t parser.Term, s parser.S) int {
	n := 0
	switch t := t.(type) {
	case parser.S:
		if t == s {
			return 1
		}
	case parser.REF:
		if t.Default == s {
			return 1
		}
	case parser.Seq:
		for _, u := range t {
			n += count(u, s)
		}
	case parser.Oneof:
		for _, u := range t {
			n += count(u, s)
		}
	case parser.Stack:
		for _, u := range t {
			n += count(u, s)
		}
	case parser.Quant:
		return count(t.Term, s)
	case parser.Delim:
		n = count(t.Term, s) + count(t.Sep, s)
		if t.CanStartWithSep || t.CanEndWithSep {
			n += count(t.Sep, s)
		}
	case parser.Named:
		return count(t.Term, s)
	case parser.ScopedGrammar:
		n = count(t.Term, s)
		for _, u := range t.Grammar {
			n += count(u, s)
		}
	}
	return n
}

// A choice or repetition of two sequences of literals and rules.
// bounds: sequences of 2 items (3 and 2 thorough) over three literals and two rules of three shapes each; text <=3 bytes (4 thorough) over {x,y,z}.
func H_C10_choice() {
	leaf := func() parser.Term {
		i := vsym.Choose("item", 5)
		return [...]parser.Term{lits[0], lits[1], lits[2], parser.Rule("b"), parser.Rule("c")}[i]
	}
	one := parser.Seq{leaf(), leaf()}
	two := parser.Seq{leaf(), leaf()}
	if vsym.Thorough() {
		one = append(one, leaf())
	}
	var t parser.Term = parser.Oneof{one, two}
	switch vsym.Choose("shape", 3) {
	case 1:
		t = parser.Seq{parser.Opt(one), two}
	case 2:
		t = parser.Seq{parser.Any(one), parser.Named{Name: "r", Term: two}}
	}
	b := [...]parser.Term{parser.S("w"), lits[0], parser.Seq{parser.S("w"), parser.Opt(lits[1])}}[vsym.Choose("b", 3)]
	c := [...]parser.Term{parser.Rule("b"), parser.Seq{lits[1], lits[2]}, parser.Oneof{parser.Rule("b"), parser.S("v")}}[vsym.Choose("c", 3)]
	check(parser.Grammar{"a": t, "b": b, "c": c}, h.Text("src", h.Pick(3, 4), "xyzwv"))
}

// Every term of up to k operators (sequence, choice, quantifier, lookahead, name, delimiter).
// bounds: k<=2 (3 thorough); text <=4 bytes over {x,y,z}.
func H_C10_terms() {
	g := &h.Gen{Ops: "soqlnd", Leaves: append([]parser.Term{parser.Rule("b")}, lits[:2]...), Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 0}, {2, 2}}, NoLit: true,
		Delims: []parser.Delim{{}, {CanEndWithSep: true}, {CanStartWithSep: true}, {Assoc: parser.LeftToRight, CanStartWithSep: true, CanEndWithSep: true}}}
	b := [...]parser.Term{lits[2], parser.Seq{lits[2], parser.Opt(lits[0])}}[vsym.Choose("b", 2)]
	check(parser.Grammar{"a": g.UpTo(h.Pick(2, 3)), "b": b}, h.Text("src", 4, "xyz"))
}

// Optional separators, stacks, recursion, lookaheads, defaults and nested grammars around one literal.
// bounds: fourteen shapes, each with three choices of literal at four places; text <=5 bytes over {x,y,z,u}.
func H_C10_shapes() {
	lit := func(n int) parser.Term { return lits[vsym.Choose("lit", n)] }
	k, l, m, n := lit(1), lit(2), lit(3), lit(3) // the three are interchangeable
	gr := parser.Grammar{}
	u := parser.S("u")
	switch vsym.Choose("shape", 14) {
	case 0:
		gr["a"] = parser.Seq{parser.Delim{Term: k, Sep: l, CanEndWithSep: true}, parser.Opt(m)}
	case 1:
		gr["a"] = parser.Seq{parser.Opt(m), parser.Delim{Term: k, Sep: parser.Seq{l, n}, CanStartWithSep: true}}
	case 2:
		gr["a"] = parser.Oneof{parser.Seq{parser.Delim{Term: k, Sep: l, CanEndWithSep: true}, m}, parser.Seq{k, n}}
	case 3:
		gr["a"] = parser.Stack{parser.Delim{Term: parser.At, Sep: k}, parser.Oneof{parser.Seq{l, parser.At, m}, u}}
	case 4:
		gr["a"] = parser.Stack{parser.Oneof{parser.Seq{k, parser.At}, parser.Seq{l, parser.At}}, parser.Seq{u, parser.Any(parser.Seq{m, n})}}
	case 5:
		gr["a"] = parser.Oneof{parser.Seq{k, parser.Opt(parser.Rule("a")), l}, parser.Seq{m, n}, u}
	case 6:
		gr["a"] = parser.Oneof{parser.Seq{parser.LookAhead{Term: parser.Seq{parser.Rule("b"), k}}, parser.Rule("b"), u}, parser.Seq{parser.Rule("b"), l}}
		gr["b"] = parser.Seq{m, parser.Opt(n)}
	case 7:
		gr["a"] = parser.Oneof{parser.Seq{k, l}, parser.ScopedGrammar{Term: parser.Rule("b"), Grammar: parser.Grammar{"b": parser.Oneof{parser.Seq{m, u}, parser.Seq{n, l}}}}}
	case 8:
		gr["a"] = parser.Oneof{parser.ScopedGrammar{Term: parser.Seq{parser.Rule("b"), k}, Grammar: parser.Grammar{"b": m}},
			parser.ScopedGrammar{Term: parser.Seq{parser.Rule("b"), l}, Grammar: parser.Grammar{"b": n}}}
	case 9:
		gr["a"] = parser.Seq{parser.Opt(parser.Seq{k, l}), parser.REF{Ident: "n", Default: m}, n}
	case 10:
		gr["a"] = parser.Oneof{parser.Seq{parser.Rule("b"), k}, parser.Seq{parser.Named{Name: "n", Term: parser.Rule("c")}, l}, parser.Rule("d")}
		gr["b"], gr["c"], gr["d"] = m, parser.Rule("b"), parser.Seq{parser.Rule("c"), n}
	case 11:
		gr["a"] = parser.Oneof{parser.Seq{parser.Any(parser.Seq{parser.Rule("b"), k}), l}, parser.Quant{Term: parser.Rule("b"), Min: 1, Max: 2}}
		gr["b"] = parser.Oneof{m, parser.Seq{n, u}}
	case 12:
		gr["a"] = parser.Oneof{parser.Seq{parser.Delim{Term: parser.Rule("b"), Sep: k, Assoc: parser.RightToLeft, CanStartWithSep: true, CanEndWithSep: true}, l}, parser.Rule("c")}
		gr["b"], gr["c"] = m, parser.Seq{parser.Rule("b"), n}
	case 13:
		gr["a"] = parser.Oneof{parser.Seq{k, parser.Quant{Term: parser.Oneof{parser.Seq{l, u}, parser.Seq{m}[0]}, Min: 2}}, parser.Seq{parser.Opt(k), n, n}}
	}
	check(gr, h.Text("src", h.Pick(4, 5), "xyzu"))
}

// Sequences that go on after several literals, with a wrapping pattern: the committed literal need not come first.
// bounds: two alternatives of 3 literals out of four (text "uv" included); text <=4 bytes over {x,u,v,space}.
func H_C10_wrapped() {
	ls := [...]parser.Term{parser.S("x"), parser.S("uv"), parser.S("v"), parser.Opt(parser.S("x"))}
	l := func() parser.Term { return ls[vsym.Choose("lit", 4)] }
	p, q, r, s, t, u := l(), l(), l(), l(), l(), l()
	gr := parser.Grammar{"a": parser.Oneof{parser.Seq{p, q, r}, parser.Seq{s, parser.Opt(t), u}}, parser.WrapRE: parser.RE(`\s*()`)}
	check(gr, h.Text("src", h.Pick(3, 4), "xuv "))
}
