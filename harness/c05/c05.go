package c05

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

func anyDelim() parser.Delim {
	return parser.Delim{Assoc: [...]parser.Associativity{parser.NonAssociative, parser.LeftToRight, parser.RightToLeft}[vsym.Choose("assoc", 3)],
		CanStartWithSep: vsym.Choose("lead", 2) == 1, CanEndWithSep: vsym.Choose("trail", 2) == 1}
}

// A delimiter of every associativity and option over symbolic literals, as the whole rule, named, or followed by a literal.
// bounds: term and separator of 1 or 2 bytes; text <=6 bytes (7 thorough) over {x,y}.
func H_C05_simple() {
	d := anyDelim()
	d.Term = parser.S(vsym.Bytes("term", 1+vsym.Choose("tn", 2), "xy"))
	d.Sep = parser.S(vsym.Bytes("sep", 1+vsym.Choose("sn", 2), "xy"))
	gr := parser.Grammar{"a": wrapped(d)}
	src := h.Text("src", h.Pick(6, 7), "xy")
	h.CheckParse(gr.Compile(nil), gr, "a", src, "delimiter")
}

func wrapped(d parser.Delim) parser.Term {
	switch vsym.Choose("ctx", 4) {
	case 0:
		return d
	case 1:
		return parser.Named{Name: "n", Term: d}
	case 2:
		return parser.Seq{d, parser.S("x")}
	}
	return parser.Seq{parser.Opt(d), parser.Opt(parser.S("y"))}
}

// A delimiter over composite terms and separators.
// bounds: up to 1 operator (2 thorough) in term and separator together, among sequence, choice, quantifier, delimiter, name; text <=5 bytes.
func H_C05_composite() {
	g := &h.Gen{Ops: "soqd", Lit: "xy", Leaves: []parser.Term{parser.Rule("b")}, Quants: [][2]int{{0, 1}, {1, 0}},
		Delims: []parser.Delim{{}, {Assoc: parser.LeftToRight}, {CanEndWithSep: true}}}
	d := anyDelim()
	n := vsym.Choose("ops", h.Pick(2, 3))
	k := vsym.Choose("split", n+1)
	d.Term, d.Sep = g.Term(k), g.Term(n-k)
	gr := parser.Grammar{"a": d, "b": parser.Seq{parser.S("x"), parser.Opt(parser.S("y"))}}
	src := h.Text("src", 5, "xy")
	h.CheckParse(gr.Compile(nil), gr, "a", src, "delimiter")
}

func tokens(te parser.TreeElement, out []string) []string {
	switch x := te.(type) {
	case parser.Scanner:
		return append(out, x.String())
	case parser.Node:
		for _, c := range x.Children {
			out = tokens(c, out)
		}
	}
	return out
}

// The three associativities accept the same texts and read back as the same terms and separators.
// bounds: text <=7 bytes over {x,y,z}; all separator options.
func H_C05_sameReading() {
	d := anyDelim()
	d.Term, d.Sep = parser.Oneof{parser.S("x"), parser.S("z")}, parser.S("y")
	e := d
	e.Assoc = [...]parser.Associativity{parser.NonAssociative, parser.LeftToRight, parser.RightToLeft}[vsym.Choose("assoc2", 3)]
	src := h.Text("src", 7, "xyz")
	p, q := parser.Grammar{"a": d}.Compile(nil), parser.Grammar{"a": e}.Compile(nil)
	t, err1 := p.Parse("a", parser.NewScanner(src))
	u, err2 := q.Parse("a", parser.NewScanner(src))
	vsym.Assert((err1 == nil) == (err2 == nil), "associativity changes what is accepted")
	if err1 != nil {
		return
	}
	vsym.Cover("both parse")
	a, b := tokens(t, nil), tokens(u, nil)
	vsym.Assert(len(a) == len(b), "associativity changes the number of tokens")
	for i := range a {
		vsym.Assert(a[i] == b[i], "associativity changes the tokens")
	}
}
