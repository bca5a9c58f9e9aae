package c04

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

func check(gr parser.Grammar, src string) {
	h.CheckParse(gr.Compile(nil), gr, "a", src, "parse")
}

// Every term of up to k operators (sequence, choice, quantifier, lookahead, name) over symbolic one-byte literals
// and a reference to a second rule, on every text.
// bounds: quick k<=3, text <=3 bytes; thorough k<=3, text <=5 bytes, literals of up to 2 bytes; literals and text over {x,y}; four quantifier bounds.
func H_C04_terms() {
	g := &h.Gen{Ops: "soqln", Lit: "xy", LitLen: h.Pick(1, 2), Leaves: []parser.Term{parser.Rule("b")}, Names: []string{"n"}, Quants: h.DefaultQuants}
	b := [...]parser.Term{parser.S("xy"), parser.Oneof{parser.S("x"), parser.S("y")}, parser.Opt(parser.S("y"))}[vsym.Choose("b", 3)]
	gr := parser.Grammar{"a": g.UpTo(3), "b": b}
	check(gr, h.Text("src", h.Pick(3, 5), "xy"))
}

// Sequences and choices of three and four items, each a leaf or one operator over a leaf.
// bounds: 3 items (4 thorough), text <=4 bytes over {x,y}.
func H_C04_wide() {
	g := &h.Gen{Ops: "qon", Lit: "xy", Names: []string{"n"}, Quants: [][2]int{{0, 1}, {1, 0}}}
	n := h.Pick(3, 4)
	var ts []parser.Term
	for i := 0; i < n; i++ {
		ts = append(ts, g.UpTo(1))
	}
	var t parser.Term = parser.Seq(ts)
	if vsym.Choose("kind", 2) == 1 {
		t = parser.Oneof(ts)
	}
	check(parser.Grammar{"a": t}, h.Text("src", 4, "xy"))
}

// A quantifier with arbitrary bounds over several kinds of term, alone and followed by what it repeats.
// bounds: 0<=min<=4, max 0 (none) or min..4 and >=1; text <=5 bytes (6 thorough).
func H_C04_bounds() {
	lit := parser.S(vsym.Bytes("lit", 1, "xy"))
	item := [...]parser.Term{lit, parser.S("xy"), parser.Opt(parser.S("x")),
		parser.Seq{parser.Opt(parser.S("x")), parser.S("y")}, parser.Oneof{parser.S("xy"), parser.S("x"), parser.S("")}, parser.Rule("b")}[vsym.Choose("item", 6)]
	q := parser.Quant{Term: item, Min: vsym.Choose("min", 5)}
	if vsym.Choose("limit", 2) == 1 {
		q.Max = q.Min + vsym.Choose("max", 5-q.Min)
		vsym.Assume(q.Max > 0)
	}
	var t parser.Term = q
	switch vsym.Choose("ctx", 3) {
	case 1:
		t = parser.Seq{q, parser.S("x")}
	case 2:
		t = parser.Oneof{parser.Seq{q, parser.S("y")}, q}
	}
	gr := parser.Grammar{"a": t, "b": parser.Seq{parser.S("x"), parser.Rule("c")}, "c": parser.Opt(parser.S("y"))}
	check(gr, h.Text("src", h.Pick(5, 6), "xy"))
}

// Recursive rules: a rule that after a literal may refer to itself or to a rule that refers back.
// bounds: terms of up to 2 operators (3 thorough) after the literal; text <=4 bytes (5 thorough).
func H_C04_recursive() {
	g := &h.Gen{Ops: "soq", Lit: "xy", Leaves: []parser.Term{parser.Rule("a"), parser.Rule("b")}, Quants: [][2]int{{0, 1}, {0, 0}}}
	gr := parser.Grammar{
		"a": parser.Oneof{parser.Seq{parser.S("x"), g.UpTo(h.Pick(2, 3))}, parser.S(vsym.Bytes("base", 1, "xy"))},
		"b": parser.Seq{parser.S("y"), parser.Opt(parser.Rule("a")), parser.S("x")},
	}
	check(gr, h.Text("src", h.Pick(4, 5), "xy"))
}

// Rules that only refer to other rules, directly, under a name, or through each other.
// bounds: three rules, all such chains without a cycle; text <=3 bytes.
func H_C04_alias() {
	ref := func(to parser.Rule) parser.Term {
		switch vsym.Choose("how", 4) {
		case 0:
			return to
		case 1:
			return parser.Named{Name: "n", Term: to}
		case 2:
			return parser.Quant{Term: to, Min: 1}
		}
		return parser.Oneof{to, parser.S("y")}
	}
	gr := parser.Grammar{"a": ref("b"), "b": ref("c"), "c": parser.S(vsym.Bytes("lit", 1, "xy")), "d": parser.Seq{parser.Rule("a"), parser.Rule("b"), parser.Named{Name: "m", Term: parser.Rule("a")}}}
	p := gr.Compile(nil)
	vsym.Assert(p.HasRule("a") && p.HasRule("d") && !p.HasRule("n"), "HasRule")
	h.CheckParse(p, gr, [...]parser.Rule{"a", "b", "c", "d"}[vsym.Choose("start", 4)], h.Text("src", 3, "xy"), "parse")
}
