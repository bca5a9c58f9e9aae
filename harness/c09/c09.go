package c09

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// Outcome, residue and partial tree of a parse with every term of up to k operators (sequence, choice, quantifier,
// lookahead, delimiter), started at the whole text or at a slice of a longer text.
// bounds: k<=3; text <=3 bytes (4 thorough) over {x,y}; slices with up to 1 byte before the text.
func H_C09_outcome() {
	g := &h.Gen{Ops: "soqld", Lit: "xy", Leaves: []parser.Term{parser.Rule("b")}, Quants: [][2]int{{0, 1}, {0, 0}, {2, 2}},
		Delims: []parser.Delim{{CanEndWithSep: true}, {Assoc: parser.LeftToRight, CanStartWithSep: true}}}
	gr := parser.Grammar{"a": g.UpTo(3), "b": parser.Oneof{parser.S("xy"), parser.S("x")}}
	pre := vsym.Choose("before", 2)
	src := h.Text("src", h.Pick(3, 4), "xy")
	p := gr.Compile(nil)
	vsym.Note(func() string { return gr.String() + "   " + src })
	m := &h.M{Src: src}
	end, want, ok := m.Rule(gr, "a")
	whole := "xy"[:pre] + src
	in := parser.NewScanner(whole).Skip(pre)
	te, err := p.Parse("a", in)
	if ok && end == len(src) {
		vsym.Cover("whole")
		vsym.Assert(err == nil, "refuses input that the rule matches entirely")
		h.SameAt(whole, pre, te, want, "tree")
		return
	}
	vsym.Assert(err != nil, "succeeds without matching the entire input")
	vsym.Assert(te == nil, "a tree comes with the error")
	u, left := err.(parser.UnconsumedInputError)
	vsym.Assert(left == ok, "UnconsumedInputError exactly when the rule matched a proper prefix")
	if left {
		vsym.Cover("prefix")
		vsym.Assert(u.Residue().Offset() == pre+end, "residue starts elsewhere than after the matched part")
		vsym.Assert(u.Residue().String() == src[end:], "residue is not the unread rest")
		h.SameAt(whole, pre, u.Result(), want, "tree of the matched part")
	} else {
		vsym.Cover("no match")
	}
	vsym.Assert(h.Panics(func() { p.MustParse("a", parser.NewScanner(src)) }), "MustParse returns despite an error")
}

// Lines and columns play no role: texts with newlines, and patterns that could stop at a line's end.
// bounds: text <=4 bytes over {x,newline}; eight rules with patterns using . ^ $ \s and negated classes.
func H_C09_lines() {
	res := vsym.Once("g", func() any {
		var ps []parser.Parsers
		for _, re := range pats {
			ps = append(ps, parser.Grammar{"a": parser.RE(re), "b": parser.Seq{parser.Opt(parser.Rule("a")), parser.Opt(parser.S("\n"))}}.Compile(nil))
		}
		return ps
	}).([]parser.Parsers)
	i := vsym.Choose("pattern", len(pats))
	gr := parser.Grammar{"a": parser.RE(pats[i]), "b": parser.Seq{parser.Opt(parser.Rule("a")), parser.Opt(parser.S("\n"))}}
	h.CheckParse(res[i], gr, [...]parser.Rule{"a", "b"}[vsym.Choose("rule", 2)], h.Text("src", 4, "x\n"), "lines")
}

var pats = []string{`x*$`, `.*`, `[^x]*`, `^x?\s*`, `x+\s`, `(?s).*`, `x*\n?$`, `x\b`}
