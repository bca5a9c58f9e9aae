package c25

import (
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// check generates source for the compiled form of g and evaluates it; stacks are written back as stacks.
func check(g parser.Grammar) {
	src := codegen.MakeGrammarString(g.Compile(nil).Grammar()).String()
	vsym.Note(func() string { return src })
	got := Evaluate(src)
	same(got, g)
	vsym.Assert(codegen.MakeGrammarString(got.Compile(nil).Grammar()).String() == src, "generating again from the result")
}

// same asserts that both grammars mean the same: rule by rule, stacks layer by layer, where in the last layer of a
// stack @ and the rule's own name are the same.
func same(got, want parser.Grammar) {
	hw.SameGrammar(hw.Unstack(got), hw.Unstack(want), "generated source")
}

// over is a composite of the given kind over sub.
func over(kind int, sub func() parser.Term) parser.Term {
	k := parser.S("k")
	switch kind {
	case 0:
		return parser.Seq{k, sub()}
	case 1:
		return parser.Oneof{sub(), k, sub()}
	case 2:
		return parser.Delim{Term: sub(), Sep: k}
	case 3:
		assoc := parser.Associativity(vsym.Choose("assoc", 3) - 1)
		start, end := vsym.Choose("start", 2), vsym.Choose("end", 2)
		return parser.Delim{Term: k, Sep: sub(), Assoc: assoc, CanStartWithSep: start == 1, CanEndWithSep: end == 1}
	case 4:
		min, max := vsym.Choose("min", 3), vsym.Choose("max", 4)
		if max > 0 {
			vsym.Assume(min <= max)
		}
		return parser.Quant{Term: sub(), Min: min, Max: max}
	case 5:
		return parser.Named{Name: []string{"n", "some_Name"}[vsym.Choose("name", 2)], Term: sub()}
	case 6:
		return parser.LookAhead{Term: sub()}
	case 7:
		return parser.ScopedGrammar{Term: sub(), Grammar: parser.Grammar{"inner": sub(), "other": k}}
	case 8:
		return parser.ScopedGrammar{Term: sub(), Grammar: parser.Grammar{}}
	case 9:
		return parser.Seq{}
	}
	return parser.Seq{sub()}
}

const overKinds = 11

// chars are the bytes that matter to Go's lexical rules, and characters outside ASCII.
const chars = "a`\"\\\n\r\t\x00$\xff"

func leaf() parser.Term {
	text := func() string {
		n := vsym.Choose("len", 3)
		return vsym.Bytes("text", n, "a`\r\\")
	}
	switch vsym.Choose("leaf", 9) {
	case 0:
		return parser.S(text())
	case 1:
		return parser.RE([]string{"`", `\d"`, "[ \t]\n", "\\\\`x`", "\r?"}[vsym.Choose("re", 5)])
	case 2:
		return parser.Rule("b")
	case 3:
		return parser.ExtRef("ext")
	case 4:
		return parser.REF{Ident: "n"}
	case 5:
		return parser.REF{Ident: "n", Default: parser.S("`")}
	case 6:
		return parser.REF{Ident: "n", Default: parser.RE("x`")}
	case 7:
		return parser.S([]string{"é世", "\ufeff", "a\ufeffb", "\\n", "%s%d"}[vsym.Choose("special", 5)])
	}
	return parser.Rule("a")
}

// Literals of every content and other leaves, alone or below one operator of each kind.
// bounds: literal texts of <=2 bytes over {a,back-quote,carriage return,backslash}, patterns and non-ASCII texts from a list; one operator.
func H_C25_leaf() {
	t := leaf()
	if k := vsym.Choose("over", overKinds+1); k < overKinds {
		t = over(k, func() parser.Term { return t })
	}
	check(parser.Grammar{"a": parser.Seq{parser.S("s"), t}, "b": parser.S("x")})
}

// Literals of longer arbitrary content.
// bounds: <=3 bytes (4 thorough) over {a,back-quote,double quote,backslash,newline,carriage return,tab,NUL,dollar,0xff}.
func H_C25_literal() {
	s := h.Text("text", h.Pick(3, 4), chars)
	src := codegen.MakeGrammarString(parser.Grammar{"a": parser.S(s)}).String()
	vsym.Note(func() string { return src })
	got, ok := Evaluate(src)["a"].(parser.S)
	vsym.Assert(ok && string(got) == s, "text of a literal")
}

// Patterns of arbitrary content (generation does not compile them).
// bounds: <=2 bytes (3 thorough), the same bytes.
func H_C25_pattern() {
	s := h.Text("text", h.Pick(2, 3), chars)
	src := codegen.MakeGrammarString(parser.Grammar{"a": parser.RE(s)}).String()
	vsym.Note(func() string { return src })
	got, ok := Evaluate(src)["a"].(parser.RE)
	vsym.Assert(ok && string(got) == s, "text of a pattern")
}

// Compositions of operators.
// bounds: every nesting of 3 operators (4 thorough) of every kind and option over literals, references and rules.
func H_C25_nest() {
	n := h.Pick(2, 3)
	var mk func(n int) func() parser.Term
	mk = func(n int) func() parser.Term {
		if n == 0 {
			l := []parser.Term{parser.S("x"), parser.Rule("b"), parser.REF{Ident: "n", Default: parser.RE("x")}}[vsym.Choose("leaf", 3)]
			return func() parser.Term { return l }
		}
		t := over(vsym.Choose("over", overKinds), mk(n-1))
		return func() parser.Term { return t }
	}
	check(parser.Grammar{"a": mk(n)(), "b": parser.S("y")})
}

// Stacks: references to the layer above come back as @, at top level and in nested grammars.
// bounds: stacks of 2 to 3 layers (12 once, so that layer numbers have two digits), each layer one operator over @, literal, or the rule's own name.
func H_C25_stack() {
	layer := func() parser.Term {
		sub := func() parser.Term {
			return []parser.Term{parser.At, parser.S("x"), parser.Rule("b")}[vsym.Choose("part", 3)]
		}
		k := vsym.Choose("over", 7)
		return over(k, sub)
	}
	n := 2 + vsym.Choose("layers", 2)
	st := parser.Stack{}
	for i := 0; i < n; i++ {
		if i > 0 && i < n-1 {
			st = append(st, parser.Seq{parser.At, parser.S("m")})
		} else {
			st = append(st, layer())
		}
	}
	switch vsym.Choose("where", 3) {
	case 0:
		check(parser.Grammar{"a": st, "b": parser.S("y")})
	case 1:
		check(parser.Grammar{"a": parser.Seq{parser.S("z"), parser.ScopedGrammar{Term: parser.Rule("in"), Grammar: parser.Grammar{"in": st}}}, "b": parser.S("y")})
	case 2:
		check(parser.Grammar{"a": st, "ab": parser.Stack{parser.Seq{parser.At, parser.S("p")}, parser.S("q")}, "b": parser.S("y"), "a1": parser.S("r")})
	}
}

// Stacks of many layers and several stacks.
// bounds: 9 to 12 layers, one or two stacks whose names are prefixes of each other.
func H_C25_layers() {
	mk := func(n int) parser.Stack {
		st := parser.Stack{}
		for i := 0; i < n; i++ {
			st = append(st, parser.Delim{Term: parser.At, Sep: parser.S(string(rune('a' + i)))})
		}
		st[n-1] = parser.S("z")
		return st
	}
	g := parser.Grammar{"e": mk(9 + vsym.Choose("n", 4))}
	if vsym.Choose("second", 2) == 1 {
		g["e1"] = mk(1 + vsym.Choose("m", 3))
	}
	check(g)
}

// Commit points survive generation.
// bounds: a commit point below each kind of operator.
func H_C25_cuts() {
	kind := vsym.Choose("over", overKinds-2)
	g := parser.Grammar{"a": over(kind, func() parser.Term { return parser.CutPoint{Term: parser.S("c")} })}
	src := codegen.MakeGrammarString(g).String()
	vsym.Note(func() string { return src })
	got := Evaluate(src)
	hw.SameGrammar(hw.StripAll(got), hw.StripAll(g), "generated source")
	n, m := cuts(got["a"]), cuts(g["a"])
	vsym.Assert(n == m, "number of commit points")
}

func cuts(t parser.Term) int {
	sum := func(ts []parser.Term) int {
		n := 0
		for _, t := range ts {
			n += cuts(t)
		}
		return n
	}
	switch t := t.(type) {
	case parser.CutPoint:
		return 1 + cuts(t.Term)
	case parser.Seq:
		return sum(t)
	case parser.Oneof:
		return sum(t)
	case parser.Delim:
		return cuts(t.Term) + cuts(t.Sep)
	case parser.Quant:
		return cuts(t.Term)
	case parser.Named:
		return cuts(t.Term)
	case parser.LookAhead:
		return cuts(t.Term)
	case parser.ScopedGrammar:
		n := cuts(t.Term)
		for _, t := range t.Grammar {
			n += cuts(t)
		}
		return n
	}
	return 0
}

// Grammars as compiled from text, commit points included.
// bounds: 6 texts with stacks, nested grammars, back-references, delimiters and wrapping patterns.
func H_C25_texts() {
	texts := []string{
		"a -> b* \"`\" c?; b -> /{[\\w`]+}; c -> 'é' ('x' | \"\\n\"){2,3};",
		"e -> @:op=\"+\" > @:>op=\"*\" > \"(\" @ \")\" | /{\\d+};",
		"x -> y \"z\" { y -> \"1\" > @ \"2\"; };",
		"x -> n=\"a\" %n %m=\"d\" %%ext (?=\"l\");",
		".wrapRE -> /{\\s*()\\s*}; a -> (b:,\",\")  \"end\"; b -> \"q\"{,4};",
		"a -> \"x\":>\"y\" | \"x\"<:\"y\";",
	}
	p := hw.MustCompile(texts[vsym.Choose("text", len(texts))])
	src := codegen.MakeGrammarString(p.Grammar()).String()
	vsym.Note(func() string { return src })
	got := Evaluate(src).Compile(nil).Grammar()
	hw.SameGrammar(hw.StripAll(got), hw.StripAll(p.Grammar()), "generated source")
	for r, t := range p.Grammar() {
		vsym.Assert(cuts(got[r]) == cuts(t), "number of commit points")
	}
}
