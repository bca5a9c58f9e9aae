package c11

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hg"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// outcome parses a text with every rule of a grammar: a tree or an error, but no crash, overflow or endless loop.
func outcome(p parser.Parsers, text string) {
	for rule := range p.Grammar() {
		if rule == parser.WrapRE {
			continue
		}
		te, err := p.Parse(rule, parser.NewScanner(text))
		vsym.Assert((te == nil) != (err == nil) || err != nil, "neither a tree nor an error")
	}
}

// decide compiles a grammar that is well-formed, which has to succeed unless it is left-recursive, and uses the parser.
func decide(grammar string, text func() string, empties ...string) {
	vsym.Note(func() string { return "grammar: " + grammar })
	g, ok := hg.Read(grammar)
	if !ok {
		return // C16
	}
	p, err := hw.Compile(grammar)
	if hg.LeftRecursive(g, empties...) {
		vsym.Cover("left-recursive")
		vsym.Assert(err != nil, "accepts a left-recursive grammar")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(err == nil, "refuses a grammar that is not left-recursive")
	outcome(p, text())
}

func gen(leaves ...parser.Term) *h.Gen {
	return &h.Gen{Ops: "soqlnd", NoLit: true, Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 0}, {1, 2}},
		Leaves: leaves, Delims: []parser.Delim{{}, {Assoc: parser.LeftToRight, CanStartWithSep: true, CanEndWithSep: true}}}
}

const (
	a, b, c = parser.Rule("a"), parser.Rule("b"), parser.Rule("c")
	x       = parser.S("x")
)

func input() string { return h.Text("text", h.Pick(2, 4), "xy") }

// Rules that refer to themselves and each other in every way.
// bounds: a rule of up to 2 operators of sequence, choice, quantifier, lookahead, name and delimiter over two rules, a
// literal and the empty literal; the second rule of seven kinds; text <=2 bytes over {x,y} (4 thorough).
func H_C11_recursion() {
	t := gen(a, b, x, parser.S("")).UpTo(2)
	second := [...]string{"'x'", "()", "a", "b? 'x'", "'x'? a", "'x' (a | b)", "(?=a) 'x'"}[vsym.Choose("second", 7)]
	decide("a -> "+h.Print(t, 0)+"; b -> "+second+";", input)
}

// Recursion through three rules, in which patterns, back-references and references to the own rule take part.
// bounds: three rules of up to 1 operator each over the rules, one of eight leaves in each rule; thorough: two operators in one of them.
func H_C11_three() {
	leaf := func() parser.Term {
		return [...]parser.Term{x, parser.RE("x*"), parser.RE("x+|y"), parser.REF{Ident: "n", Default: parser.S("x")}, parser.REF{Ident: "n", Default: parser.S("")}, parser.At, parser.Seq{}, parser.ExtRef("e")}[vsym.Choose("leaf", 8)]
	}
	k := [...]string{"# @", "(# | 'y') @", "#? @", "#* @", "(# # @)", "@ #", "'y':# @", "#:,'x' @", "(?=#) @", "# | @", "'x' | m=(# @)"}
	n := len(k)
	s := ""
	for i, r := range []string{"a", "b", "c"} {
		to := []string{"b", "c", "a"}[i]
		body := "'x' " + to
		if i < h.Pick(2, 3) {
			body = k[vsym.Choose("shape", n)]
			body = replace(replace(body, "@", to), "#", h.Print(leaf(), 4))
		} else if vsym.Bool("straight") {
			body = to
		}
		s += r + " -> " + body + "; "
	}
	decide(s, input, "x*")
}

func replace(s, old, new string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i:i+1] == old {
			r += new
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

// Recursion through nested grammars, where the same names mean different rules.
// bounds: rules a and b outside, a or c and b inside, two levels; bodies of five to seven kinds.
func H_C11_nested() {
	body := func(what string) string {
		return [...]string{"'x'", "a", "b", "b? a", "'x' a", "c", "'y'? c"}[vsym.Choose(what, h.Pick(6, 7))]
	}
	in := [...]string{"a", "c"}[vsym.Choose("inner rule", 2)]
	inner := in + " -> " + body("inner") + "; b -> " + body("inner b")
	if vsym.Bool("deeper") {
		inner += " { c -> " + body("innermost") + "; }"
	}
	decide("a -> "+body("nested")+" { "+inner+"; } "+[...]string{"", "| b", "> 'y'? @"}[vsym.Choose("after", h.Pick(1, 3))]+"; b -> "+body("outer b")+"; c -> 'y' a;", input)
}

// Stacks: each layer leads to the next, and the last one back to the first.
// bounds: two or three layers of ten kinds; text <=2 bytes over {x,y} (4 thorough).
func H_C11_stack() {
	n := 2 + vsym.Choose("layers", 2)
	s := "a -> "
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " > "
		}
		s += [...]string{"@", "@:'x'", "'x' @", "'x'? @", "@? 'x'", "'x' | 'y' @", "@ {c -> 'y';}", "'x' a", "b", "(b @)"}[vsym.Choose("layer", 10)]
	}
	decide(s+"; b -> 'y'?;", input)
}

// Arbitrary beginnings of grammars: compiling gives an error or a parser, and the parser parses.
// bounds: every text of up to 3 bytes (4 thorough), of any ASCII characters, alone or in one of five places.
func H_C11_anytext() {
	n := h.Pick(2, 3)
	pre, post := "", ""
	switch vsym.Choose("place", 7) {
	case 0:
		n++
	case 1:
		pre, post = "a -> ", ";"
	case 2:
		pre, post = "a -> 'x' | ", ""
	case 3:
		pre, post = "a -> \"", "\";"
	case 4:
		pre, post = "a -> /{", "};"
	case 5:
		pre, post = "a -> [", "];"
	case 6:
		pre, post = "a -> 'x'", " 'y';"
	}
	s := vsym.Bytes("s", vsym.Choose("length", n+1), "")
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 128)
	}
	compile(pre + s + post)
}

// compile compiles any text and uses the parser.
func compile(s string) {
	vsym.Note(func() string { return "grammar: " + s })
	p, err := wbnf.Compile(s, nil)
	if err != nil {
		vsym.Cover("refused")
		return
	}
	vsym.Cover("accepted")
	outcome(p, "xy")
	outcome(p, "")
}

// A grammar that uses every construct, in which one character is dropped, replaced or inserted.
// bounds: any place in 118 characters, any ASCII character (one of 24 in quick).
func H_C11_damaged() {
	const s = `a -> n=b{1,2} | (c <: ,"x" , )* > (?=c) %n='z' %%e @ :> %!M(c,b); .macro M(p, q) {p:q} b -> c () {c -> d?; d -> /{u+};}; c -> \d;`
	i := vsym.Choose("place", len(s))
	if vsym.Bool("drop") {
		compile(s[:i] + s[i+1:])
		return
	}
	alphabet := "abc@(){}'\"`/\\%!?=:,;|>-.["
	if vsym.Thorough() {
		alphabet = ""
	}
	r := vsym.Bytes("character", 1, alphabet)
	vsym.Assume(r[0] < 128)
	if vsym.Bool("insert") {
		compile(s[:i] + r + s[i:])
	} else {
		compile(s[:i] + r + s[i+1:])
	}
}
