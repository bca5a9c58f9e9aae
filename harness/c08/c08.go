package c08

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// Sequences of terms that bind and refer back to names in every position: inside nested sequences, abandoned
// alternatives, repetitions, lookaheads and other rules.
// bounds: an outer sequence of two terms of up to 2 operators together (3 thorough); names n and m bound to literals or to
// a choice of texts; text <=3 bytes (4 thorough) over {x,y}.
func H_C08_scopes() {
	g := &h.Gen{Ops: "soql", Lit: "xy", Quants: [][2]int{{0, 1}, {1, 0}},
		Leaves: []parser.Term{
			parser.Named{Name: "n", Term: parser.RE("[xy]")},
			parser.REF{Ident: "n"},
			parser.REF{Ident: "n", Default: parser.S("y")},
			parser.Rule("b"),
		}}
	n := vsym.Choose("ops", h.Pick(3, 4))
	k := vsym.Choose("split", n+1)
	gr := parser.Grammar{
		"a": parser.Seq{parser.Named{Name: "n", Term: parser.RE("x?y?")}, g.Term(k), g.Term(n - k), parser.REF{Ident: "n"}},
		"b": parser.Seq{parser.Named{Name: "n", Term: parser.S("y")}, parser.Opt(parser.REF{Ident: "n"})},
	}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", h.Pick(3, 4), "xy"), "back-reference")
}

// The same without a binding before: only what the terms themselves bind is seen.
// bounds: up to 3 operators, text <=3 bytes over {x,y}.
func H_C08_unbound() {
	g := &h.Gen{Ops: "soq", Quants: [][2]int{{0, 1}, {0, 2}}, Lit: "xy",
		Leaves: []parser.Term{
			parser.Named{Name: "n", Term: parser.RE("[xy]")},
			parser.REF{Ident: "n", Default: parser.S("x")},
			parser.REF{Ident: "n"},
		}}
	gr := parser.Grammar{"a": g.UpTo(h.Pick(3, 3))}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", 4, "xy"), "back-reference")
}

const special = ".*xX^$\\[(|\n \t\xff\xc3\xa9"

// Tokens of every length and content, with special characters: the back-reference matches them literally and nothing else.
// bounds: token of up to 2 bytes (3 thorough) over {. * x X ^ $ \ [ ( | newline space tab and bytes that aren't ASCII}, separated by a comma.
func H_C08_text() {
	p := vsym.Once("p", func() any {
		return parser.Grammar{"a": parser.Seq{
			parser.Named{Name: "open", Term: parser.RE(`[^,]*`)}, parser.S(","), parser.REF{Ident: "open"}}}.Compile(nil)
	}).(parser.Parsers)
	tok := h.Text("tok", h.Pick(2, 3), special)
	rest := h.Text("rest", h.Pick(2, 3), special)
	src := tok + "," + rest
	te, err := p.Parse("a", parser.NewScanner(src))
	if tok == rest {
		vsym.Cover("equal")
		vsym.Assert(err == nil, "refuses a repetition of the token")
		n := te.(parser.Node)
		vsym.Assert(n.GetString(2) == tok && n.GetScanner(2).Offset() == len(tok)+1, "token of the back-reference")
	} else {
		vsym.Cover("different")
		vsym.Assert(err != nil, "matches another text than the token")
	}
}

// Names around delimiters, stacks and rules: a name bound in an enclosing sequence is seen in the terms, separators
// and rules inside; what they bind is not seen outside.
// bounds: eight shapes; text <=5 bytes over {x,y}.
func H_C08_shapes() {
	n := parser.Named{Name: "n", Term: parser.RE("[xy]")}
	ref := parser.REF{Ident: "n"}
	def := parser.REF{Ident: "n", Default: parser.S("y")}
	var t parser.Term
	switch vsym.Choose("shape", 8) {
	case 0:
		t = parser.Seq{n, parser.Delim{Term: parser.S("x"), Sep: ref}}
	case 1:
		t = parser.Seq{n, parser.Delim{Term: ref, Sep: parser.S("y"), CanEndWithSep: true}, ref}
	case 2:
		t = parser.Seq{n, parser.Rule("r"), ref}
	case 3:
		t = parser.Seq{n, parser.Any(parser.Seq{n, ref}), ref}
	case 4:
		t = parser.Seq{parser.Opt(parser.Seq{n, ref, parser.S("x")}), def, n, ref}
	case 5:
		t = parser.Seq{n, parser.LookAhead{Term: parser.Seq{n, ref}}, parser.Oneof{parser.Seq{n, n, ref}, ref}}
	case 6:
		t = parser.Seq{parser.Rule("tok"), parser.REF{Ident: "tok"}, parser.Named{Name: "tok", Term: parser.S("x")}, parser.REF{Ident: "tok"}}
	case 7:
		t = parser.Seq{parser.Named{Name: "k", Term: n}, parser.REF{Ident: "k"}, def, parser.Quant{Term: ref, Max: 2}}
	}
	gr := parser.Grammar{"a": t, "r": parser.Seq{ref, n, parser.Opt(ref)}, "tok": parser.RE("[xy]")}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", 5, "xy"), "back-reference")
}

// Names of terms that match several tokens: the back-reference matches them all, in order.
// bounds: a name of a term of up to 2 operators (3 thorough) of sequence, choice, repetition, name, rule and delimiter,
// before and after the separator y; text <=4 bytes (5 thorough) over {x,y,z}.
func H_C08_nodes() {
	g := &h.Gen{Ops: "soqnd", NoLit: true, Names: []string{"m"}, Quants: [][2]int{{0, 1}, {1, 0}},
		Leaves: []parser.Term{parser.S("x"), parser.RE("[xz]"), parser.Rule("b")},
		Delims: []parser.Delim{{}, {Assoc: parser.LeftToRight}, {CanStartWithSep: true}, {CanEndWithSep: true}}}
	t := g.UpTo(h.Pick(2, 3))
	seq := parser.Seq{parser.Named{Name: "n", Term: t}, parser.S("y"), parser.REF{Ident: "n"}}
	if vsym.Choose("rule", 2) == 1 {
		seq = parser.Seq{parser.Rule("n"), parser.S("y"), parser.REF{Ident: "n"}}
	}
	gr := parser.Grammar{"a": seq, "n": t, "b": parser.Seq{parser.S("z"), parser.Opt(parser.S("x"))}}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", h.Pick(4, 5), "xyz"), "back-reference")
}
