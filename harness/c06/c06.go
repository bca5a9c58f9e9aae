package c06

import (
	"strconv"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

const at = parser.At

func layer(i int, last bool) parser.Term {
	op := parser.S(vsym.Bytes("op", 1, "+-"))
	n := 10
	if last {
		n = 4
	}
	k := vsym.Choose("layer", n)
	if last {
		switch k {
		case 0:
			return parser.S("1")
		case 1:
			return parser.Oneof{parser.S("1"), parser.Seq{parser.S("("), at, parser.S(")")}}
		case 2:
			return parser.Oneof{parser.Seq{parser.S("("), parser.Named{Name: "in", Term: at}, parser.S(")")}, parser.Rule("lit")}
		}
		return parser.Seq{parser.S("1"), parser.Opt(parser.Seq{op, parser.S("("), at, parser.S(")")})}
	}
	switch k {
	case 0:
		return parser.Delim{Term: at, Sep: op}
	case 1:
		return parser.Delim{Term: at, Sep: op, Assoc: parser.LeftToRight}
	case 2:
		return parser.Delim{Term: at, Sep: op, Assoc: parser.RightToLeft}
	case 3:
		return parser.Seq{parser.Any(op), at}
	case 4:
		return parser.Seq{at, parser.Opt(parser.Seq{op, at})}
	case 5:
		return parser.Seq{parser.Named{Name: "l", Term: at}, parser.Any(parser.Named{Name: "post", Term: op})}
	case 6:
		return parser.Oneof{parser.Seq{op, at}, at}
	case 7:
		return parser.Delim{Term: parser.Named{Name: "el", Term: at}, Sep: parser.Named{Name: "op", Term: op}, CanEndWithSep: true}
	}
	if k == 8 {
		a := [...]parser.Associativity{parser.NonAssociative, parser.LeftToRight, parser.RightToLeft}[vsym.Choose("assoc", 3)]
		return parser.Delim{Term: at, Sep: parser.Seq{op, parser.Named{Name: "mid", Term: at}, op}, Assoc: a, CanStartWithSep: vsym.Choose("lead", 2) == 1}
	}
	return parser.Seq{parser.LookAhead{Term: at}, parser.Quant{Term: at, Min: 1, Max: 1 + vsym.Choose("max", 2)}}
}

// Stacks of two and three layers of ten layer shapes over symbolic operators parse as the chain of layers they denote.
// bounds: 2 layers and text <=4 bytes over {+,-,1,(,)}, or 3 layers and text <=3 bytes; thorough text <=5 bytes.
func H_C06_stack() {
	n := 2 + vsym.Choose("layers", 2)
	var st parser.Stack
	for i := 0; i < n; i++ {
		st = append(st, layer(i, i == n-1))
	}
	gr := parser.Grammar{"e": st, "lit": parser.S("1"), "top": parser.Seq{parser.Rule("e"), parser.Opt(parser.S(";"))}}
	src := h.Text("src", h.Pick(4-(n-2), 5), "+-1()")
	p := gr.Compile(nil)
	_, isStack := gr["e"].(parser.Stack)
	vsym.Assert(isStack && len(gr) == 3, "Compile changed the caller's grammar")
	h.CheckParse(p, gr, [...]parser.Rule{"e", "top"}[vsym.Choose("start", 2)], src, "stack")
}

// Longer expressions with a fixed three-layer stack: symbolic operators of two priorities and both nestings.
// bounds: text <=9 bytes (11 thorough) over {1,+,*}.
func H_C06_expr() {
	a := [...]parser.Associativity{parser.NonAssociative, parser.LeftToRight, parser.RightToLeft}
	gr := parser.Grammar{"e": parser.Stack{
		parser.Delim{Term: at, Sep: parser.S("+"), Assoc: a[vsym.Choose("a1", 3)]},
		parser.Delim{Term: at, Sep: parser.S("*"), Assoc: a[vsym.Choose("a2", 3)]},
		parser.S("1"),
	}}
	src := h.Text("src", h.Pick(9, 11), "1+*")
	_, _, te, _ := h.CheckParse(gr.Compile(nil), gr, "e", src, "expression")
	if te != nil {
		vsym.Observe(te.(parser.Node).Tag)
	}
}

// A stack accepts and consumes the same as its layers written out as separate rules.
// bounds: 2 layers (3 thorough), text <=4 bytes.
func H_C06_writtenOut() {
	n := h.Pick(2, 3)
	var st parser.Stack
	for i := 0; i < n; i++ {
		st = append(st, layer(i, i == n-1))
	}
	gr := parser.Grammar{"e": st, "lit": parser.S("1")}
	out := parser.Grammar{"lit": parser.S("1")}
	name := func(i int) parser.Rule {
		if i%n == 0 {
			return "e"
		}
		return parser.Rule("e" + strconv.Itoa(i))
	}
	for i, l := range st {
		out[name(i)] = h.Rename(l, name(i+1))
	}
	src := h.Text("src", h.Pick(4, 3), "+-1()")
	_, err1 := gr.Compile(nil).Parse("e", parser.NewScanner(src))
	_, err2 := out.Compile(nil).Parse("e", parser.NewScanner(src))
	vsym.Assert((err1 == nil) == (err2 == nil), "stack and written-out rules accept different texts")
	u1, ok1 := err1.(parser.UnconsumedInputError)
	u2, ok2 := err2.(parser.UnconsumedInputError)
	vsym.Assert(ok1 == ok2, "stack and written-out rules fail differently")
	if ok1 {
		vsym.Assert(u1.Residue().Offset() == u2.Residue().Offset(), "stack and written-out rules consume different text")
	}
}
