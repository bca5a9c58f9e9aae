package c01

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// walk checks the tokens of te in order from position pos and returns the position after the last; gap says which
// bytes may lie outside all tokens.
func walk(src string, te parser.TreeElement, pos int, gap string, look bool) int {
	switch x := te.(type) {
	case parser.Scanner:
		lo, s := x.Offset(), x.String()
		vsym.Assert(lo >= 0 && lo+len(s) <= len(src), "token outside the source")
		vsym.Assert(s == src[lo:lo+len(s)], "token text is not the source text at its offset")
		vsym.Assert(lo >= pos, "token overlaps or precedes an earlier one")
		if !look {
			between(src[pos:lo], gap)
		}
		return lo + len(s)
	case parser.Node:
		for _, c := range x.Children {
			pos = walk(src, c, pos, gap, look)
		}
		if x.Tag == "?=" {
			return -1
		}
		return pos
	}
	return pos
}

func between(s, gap string) {
	for i := 0; i < len(s); i++ {
		ok := false
		for j := 0; j < len(gap); j++ {
			if s[i] == gap[j] {
				ok = true
			}
		}
		vsym.Assert(ok, "source text lost between tokens")
	}
}

func check(gr parser.Grammar, src, gap string) {
	vsym.Note(func() string { return gr.String() })
	vsym.Note(func() string { return src })
	te, err := gr.Compile(nil).Parse("a", parser.NewScanner(src))
	if err != nil {
		u, ok := err.(parser.UnconsumedInputError)
		if !ok {
			return
		}
		vsym.Cover("prefix")
		te = u.Result()
		src = src[:u.Residue().Offset()]
	}
	vsym.Cover("tree")
	end := walk(src, te, 0, gap, false)
	between(src[end:], gap)
}

var gen = h.Gen{Ops: "soqdn", Lit: "xy", Leaves: []parser.Term{parser.Rule("b"), parser.RE("[^x]?")}, Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 0}, {1, 2}},
	Delims: []parser.Delim{{}, {CanStartWithSep: true, CanEndWithSep: true}, {Assoc: parser.LeftToRight, CanEndWithSep: true}, {Assoc: parser.RightToLeft, CanStartWithSep: true}}}

// Without a wrapping pattern the tokens of any parse, read left to right, are consecutive and are the consumed text.
// bounds: terms of up to 2 operators (3 thorough) of sequence, choice, quantifier, delimiter, name; text <=4 bytes over {x,y}.
func H_C01_partition() {
	g := gen
	gr := parser.Grammar{"a": g.UpTo(h.Pick(2, 3)), "b": parser.Seq{parser.S("x"), parser.Opt(parser.RE("yx?"))}}
	check(gr, h.Text("src", h.Pick(4, 4), "xy"), "")
}

// With a wrapping pattern of blanks only blanks lie outside the tokens, and no token holds a blank.
// bounds: terms of up to 2 operators; text <=4 bytes (5 thorough) over {x,y,space}; wrappers with blanks before, after or both.
func H_C01_wrapped() {
	g := gen
	gr := parser.Grammar{"a": g.UpTo(h.Pick(1, 2)), "b": parser.Seq{parser.S("x"), parser.Opt(parser.RE("y+"))},
		parser.WrapRE: parser.RE([...]string{`\s*()\s*`, `()\s*`, ` *()`}[vsym.Choose("wrap", 3)])}
	check(gr, h.Text("src", h.Pick(4, 4), "xy "), " ")
}

// Patterns with capture groups: what lies between tokens is text the uncaptured parts may match.
// bounds: sequences and repetitions of two captured patterns; text <=5 bytes over {x,y,-}.
func H_C01_captured() {
	pats := []string{`-*(x)-?`, `(x|y)-`, `(?:-)(y*)`, `(x)?-`, `-(x*)|y`}
	a := parser.RE(pats[vsym.Choose("p", len(pats))])
	b := parser.RE(pats[vsym.Choose("q", len(pats))])
	t := [...]parser.Term{parser.Seq{a, b}, parser.Any(parser.Oneof{a, b}), parser.Delim{Term: a, Sep: b}, parser.Seq{parser.Some(a), parser.Opt(b), parser.Any(parser.S("x"))}}[vsym.Choose("shape", 4)]
	check(parser.Grammar{"a": t}, h.Text("src", h.Pick(5, 6), "xy-"), "-")
}

// Lookahead results are slices of the source too; the other tokens are as without the lookahead.
// bounds: lookaheads of terms of up to 2 operators before, between and after two literals; text <=4 bytes.
func H_C01_lookahead() {
	g := gen
	la := parser.LookAhead{Term: g.UpTo(h.Pick(1, 2))}
	l1, l2 := parser.S(vsym.Bytes("l1", 1, "xy")), parser.S(vsym.Bytes("l2", 1, "xy"))
	pos := vsym.Choose("pos", 3)
	var seq parser.Seq
	switch pos {
	case 0:
		seq = parser.Seq{la, l1, l2}
	case 1:
		seq = parser.Seq{l1, la, l2}
	case 2:
		seq = parser.Seq{l1, l2, la}
	}
	src := h.Text("src", 4, "xy")
	gr := parser.Grammar{"a": seq, "b": parser.Seq{parser.S("x"), parser.S("y")}}
	te, err := gr.Compile(nil).Parse("a", parser.NewScanner(src))
	if err != nil {
		u, ok := err.(parser.UnconsumedInputError)
		if !ok {
			return
		}
		te = u.Result()
	}
	vsym.Cover("tree")
	kids := te.(parser.Node).Children
	at := 0
	for i, k := range kids {
		if i == pos {
			walk(src, k.(parser.Node).Children[0], at, "", true)
			continue
		}
		s := k.(parser.Scanner)
		vsym.Assert(s.Offset() == at && s.String() == src[at:at+1], "token beside a lookahead")
		at++
	}
}

// The tokens of a back-reference are those matched in its own place.
// bounds: a named term of up to 1 operator (2 thorough), then a term of up to 1 operator (2 thorough) over back-references to it with and without default; text <=4 bytes (5 thorough) over {x,y}.
func H_C01_references() {
	g := h.Gen{Ops: "soqd", Lit: "xy", Leaves: []parser.Term{parser.RE("[^x]?")}, Quants: [][2]int{{0, 1}, {1, 2}}, Delims: []parser.Delim{{CanEndWithSep: true}, {Assoc: parser.LeftToRight}}}
	r := g
	r.NoLit = true
	r.Leaves = []parser.Term{parser.REF{Ident: "n"}, parser.REF{Ident: "m", Default: parser.S("x")}}
	n := g.UpTo(h.Pick(1, 2))
	check(parser.Grammar{"a": parser.Seq{parser.Named{Name: "n", Term: n}, r.UpTo(h.Pick(1, 2))}}, h.Text("src", h.Pick(4, 5), "xy"), "")
}

// The same for precedence stacks and nested grammars.
// bounds: stacks of a delimiter layer of each associativity, a layer of a further operator and operands, at top level or nested one or two deep, with rules of the same names outside; text <=5 bytes (6 thorough) over {x,y,+,(}.
func H_C01_stacks() {
	assoc := parser.Associativity(vsym.Choose("assoc", 3) - 1)
	operand := parser.Oneof{parser.S("x"), parser.RE("yx?"), parser.Seq{parser.S("("), parser.At, parser.Opt(parser.S("("))}}
	middle := [...]parser.Term{parser.Quant{Term: parser.At, Min: 1, Max: 2}, parser.Seq{parser.Opt(parser.S("y")), parser.At}, parser.Delim{Term: parser.At, Sep: parser.Rule("s"), Assoc: parser.LeftToRight}}[vsym.Choose("middle", 3)]
	stack := parser.Stack{parser.Delim{Term: parser.At, Sep: parser.S("+"), Assoc: assoc, CanEndWithSep: assoc == 0}, middle, operand}
	gr := parser.Grammar{"s": parser.S("y")}
	switch vsym.Choose("nesting", 3) {
	case 0:
		gr["a"] = stack
	case 1:
		gr["a"] = parser.ScopedGrammar{Term: parser.Rule("e"), Grammar: parser.Grammar{"e": stack}}
	case 2:
		gr["e"] = parser.S("+")
		gr["a"] = parser.Seq{parser.ScopedGrammar{Term: parser.Seq{parser.Rule("f"), parser.Opt(parser.S("+"))}, Grammar: parser.Grammar{"e": stack,
			"f": parser.ScopedGrammar{Term: parser.Rule("e"), Grammar: parser.Grammar{"s": parser.S("+")}}}}, parser.Opt(parser.Rule("e"))}
	}
	check(gr, h.Text("src", h.Pick(4, 6), "xy+("), "")
}
