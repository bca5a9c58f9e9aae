package c17

import (
	"strconv"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/ha"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// check parses src, and compares the syntax tree with what is due.
func check(g parser.Grammar, p parser.Parsers, src string) {
	vsym.Note(func() string { return "grammar: " + g.String() + "   source: " + strconv.Quote(src) })
	te, err := p.Parse("a", parser.NewScanner(src))
	if u, ok := err.(parser.UnconsumedInputError); ok {
		te, err = u.Result(), nil
	}
	if err != nil {
		return
	}
	vsym.Note(func() string { return "tree: " + te.(interface{ String() string }).String() })
	a := ast.FromParserNode(p.Grammar(), te)
	vsym.Note(func() string { return "syntax tree: " + a.String() })
	rule := "a"
	if _, ok := te.(parser.Scanner); ok {
		rule = "" // a rule that is but a terminal leaves no trace
	}
	if rule != "" {
		ha.Check(a, ha.Of(g, "a", te), rule)
		vsym.Cover("branch")
	} else {
		one, ok := a[""].(ast.One)
		vsym.Assert(ok && len(a) == 1, "the tree of a terminal is not a single token")
		l, ok := one.Node.(ast.Leaf)
		vsym.Assert(ok, "the tree of a terminal is not a token")
		s := parser.Scanner(l)
		vsym.Assert(s.Offset() == te.(parser.Scanner).Offset() && s.String() == te.(parser.Scanner).String(), "the token of a terminal")
		vsym.Cover("token")
	}
}

const (
	a, b, c = parser.Rule("a"), parser.Rule("b"), parser.Rule("c")
	x       = parser.S("x")
)

var y = parser.RE("(y+)|(z)")

func named(n string, t parser.Term) parser.Term { return parser.Named{Name: n, Term: t} }

func gen(ops string, leaves ...parser.Term) *h.Gen {
	return &h.Gen{Ops: ops, NoLit: true, Names: []string{"n", "b"}, Quants: [][2]int{{0, 1}, {0, 0}, {1, 1}, {2, 2}, {1, 3}},
		Leaves: leaves, Delims: []parser.Delim{{}, {CanStartWithSep: true, CanEndWithSep: true}, {Assoc: parser.LeftToRight}, {Assoc: parser.RightToLeft, CanStartWithSep: true, CanEndWithSep: true}}}
}

// Every operator, in a rule of its own or next to a name and a rule.
// bounds: a term of up to 2 operators of sequence, choice, quantifier, lookahead, name and delimiter over a literal, a
// pattern with groups, and a rule; alone or between a name and a rule it may share names with; text <=3 bytes over {x,y} (4 thorough).
func H_C17_terms() {
	t := gen("soqlnd", x, y, b).UpTo(2)
	vsym.Assume(!h.Clash(t, ":"))
	if vsym.Bool("among others") {
		t = parser.Seq{parser.Opt(named("n", x)), t, parser.Opt(b)}
	}
	g := parser.Grammar{"a": t, "b": parser.Oneof{parser.Seq{x, x}, named("b", parser.S("y"))}}
	check(g, g.Compile(nil), h.Text("text", h.Pick(3, 4), "xy"))
}

// Delimited repetitions in each direction, of terms that recur to the rule itself, are named, or have names; alone in a
// rule, which gives its name to the tree, or under a name, or next to each other.
// bounds: six terms, five separators, 12 combinations of direction and options, four places; text <=4 bytes over
// {x,y,comma,(,)} (5 thorough).
func H_C17_delim() {
	d := parser.Delim{Assoc: [...]parser.Associativity{0, parser.LeftToRight, parser.RightToLeft}[vsym.Choose("assoc", 3)], CanStartWithSep: vsym.Bool("lead"), CanEndWithSep: vsym.Bool("trail")}
	d.Term = [...]parser.Term{x, named("n", x), parser.Oneof{parser.Seq{parser.S("("), a, parser.S(")")}, x}, b,
		parser.Delim{Term: x, Sep: parser.S("y"), Assoc: parser.LeftToRight, CanEndWithSep: true},
		named("n", parser.Delim{Term: x, Sep: parser.S("y"), Assoc: parser.RightToLeft})}[vsym.Choose("term", 6)]
	d.Sep = [...]parser.Term{parser.S(","), named("op", parser.RE("[,y]")), parser.Oneof{parser.S(","), parser.S("y")}, parser.Rule("c"), parser.Some(parser.S(","))}[vsym.Choose("sep", 5)]
	t := [...]parser.Term{d, named("m", d), parser.Seq{d, parser.Opt(parser.S(".")), named("n", parser.Opt(d))}, parser.Seq{d, parser.Opt(parser.Seq{parser.S("."), d})}}[vsym.Choose("place", 4)]
	vsym.Assume(!h.Clash(t, ""))
	g := parser.Grammar{"a": t, "b": parser.Oneof{parser.S("x"), parser.S("y")}, "c": parser.S(",")}
	check(g, g.Compile(nil), h.Text("text", h.Pick(4, 5), "xy,()"))
}

// Stacks: every layer is under the name of the rule.
// bounds: two layers of nine kinds (three, thorough) above one of three; text <=4 bytes over {x,+,-,(,)} (5 thorough).
func H_C17_stack() {
	var st parser.Stack
	plus, minus := parser.S("+"), parser.S("-")
	for i, n := 0, h.Pick(2, 3); i < n; i++ {
		st = append(st, [...]parser.Term{
			parser.Delim{Term: parser.At, Sep: plus, Assoc: parser.LeftToRight},
			parser.Delim{Term: parser.At, Sep: parser.Oneof{plus, minus}, Assoc: parser.RightToLeft},
			parser.Delim{Term: parser.At, Sep: named("op", minus)},
			parser.Seq{parser.At, parser.Opt(parser.Seq{minus, a})},
			parser.Oneof{parser.Seq{minus, parser.At}, parser.At},
			parser.At,
			parser.Seq{parser.Quant{Term: minus}, named("n", parser.At)},
			parser.Seq{parser.At, parser.Quant{Term: parser.Seq{plus, parser.At}}},
			named("a", parser.Delim{Term: named("a", parser.At), Sep: plus, Assoc: parser.LeftToRight}),
		}[vsym.Choose("layer", 9)])
	}
	st = append(st, [...]parser.Term{x, parser.Oneof{x, parser.Seq{parser.S("("), a, parser.S(")")}}, parser.Seq{x, parser.Opt(b)}}[vsym.Choose("last", 3)])
	g := parser.Grammar{"a": st, "b": parser.Seq{parser.S("("), parser.Rule("a"), parser.S(")")}}
	check(g, g.Compile(nil), h.Text("text", h.Pick(4, 5), "x+-()"))
}

// Nested grammars: names mean what they do where the rule was defined.
// bounds: rules b and c outside, some of a, b, c inside of seven kinds, a stack among them, in three places and two
// levels; text <=3 bytes over {x,y} (4 thorough).
func H_C17_nested() {
	body := func(what string) parser.Term {
		return [...]parser.Term{x, parser.Seq{parser.S("y"), b}, parser.Oneof{c, x}, parser.Seq{c, parser.Opt(b)}, parser.Stack{parser.Delim{Term: parser.At, Sep: parser.S("y"), Assoc: parser.LeftToRight}, x}}[vsym.Choose(what, 5)]
	}
	in := parser.Grammar{"b": x, "c": parser.Seq{x, parser.Opt(parser.S("y"))}}
	if vsym.Bool("inner b") {
		in["b"] = body("b")
	}
	if vsym.Bool("inner c") {
		in["c"] = parser.Oneof{parser.S("y"), named("b", x)}
	}
	var t parser.Term = parser.ScopedGrammar{Term: [...]parser.Term{b, parser.Seq{b, c}, named("n", b)}[vsym.Choose("term", 3)], Grammar: in}
	switch vsym.Choose("place", 4) {
	case 0:
		t = parser.Seq{t, parser.Opt(b), parser.Opt(c)}
	case 1:
		t = parser.Seq{parser.ScopedGrammar{Term: t, Grammar: parser.Grammar{"c": parser.S("y"), "b": parser.Seq{x, c}}}, named("n", parser.Opt(b))}
	case 2:
		t = parser.Quant{Term: t}
	}
	g := parser.Grammar{"a": t, "b": parser.Seq{parser.Opt(parser.S("y")), parser.Opt(c)}, "c": parser.Oneof{parser.S("y"), parser.S("x")}}
	vsym.Assume(!recurs(in["b"], in["c"]))
	check(g, g.Compile(nil), h.Text("text", h.Pick(3, 4), "xy"))
}

// recurs tells whether the inner b and c recur on the left.
func recurs(tb, tc parser.Term) bool {
	s, ok := tb.(parser.Seq)
	return ok && s[0] == parser.Term(b)
}

// Names that are shared: of a name and a rule, several times, and with back-references.
// bounds: three to four places of eight kinds each; text <=4 bytes over {x,y} (5 thorough).
func H_C17_names() {
	ref := parser.REF{Ident: "n", Default: x}
	kinds := []parser.Term{named("n", parser.RE("[xy]")), named("n", b), ref, b, named("b", parser.Opt(x)), named("n", parser.Seq{x, named("n", parser.Opt(parser.S("y")))}), parser.Opt(named("b", b)), parser.Oneof{named("b", x), parser.S("y"), named("b", named("n", parser.S("y")))}}
	var t parser.Seq
	for i, n := 0, h.Pick(3, 4); i < n; i++ {
		t = append(t, kinds[vsym.Choose("kind", len(kinds))])
	}
	g := parser.Grammar{"a": t, "b": parser.Named{Name: "n", Term: parser.Oneof{x, parser.Seq{parser.S("y"), parser.REF{Ident: "n"}}}}}
	check(g, g.Compile(nil), h.Text("text", h.Pick(4, 5), "xy"))
}

// A rule that is but another rule, under whose names the trees are; any rule's text is the whole of what a terminal gives.
// bounds: chains of up to three rules, of five kinds of last rule; text <=3 bytes over {x,y}.
func H_C17_alias() {
	last := [...]parser.Term{x, y, parser.Quant{Term: x}, parser.Seq{x, parser.Opt(b)}, parser.Delim{Term: x, Sep: parser.S("y"), Assoc: parser.LeftToRight}, parser.Oneof{parser.Seq{x, parser.S("y")}, named("n", parser.Oneof{x, y})}}[vsym.Choose("last", 6)]
	g := [...]parser.Grammar{
		{"a": last, "b": parser.S("y")},
		{"a": b, "b": c, "c": last},
		{"a": parser.Seq{b, parser.Opt(named("m", c))}, "b": named("n", c), "c": last},
		{"a": parser.Stack{parser.Delim{Term: parser.At, Sep: parser.S("y")}, b}, "b": last},
	}[vsym.Choose("chain", 4)]
	if _, ok := last.(parser.Seq); ok && g["b"] == parser.Term(c) {
		g["b"] = parser.Seq{parser.S("y"), c}
	}
	check(g, g.Compile(nil), h.Text("text", 3, "xy"))
}

// Grammars written as text, with macros, commit points and a wrapping pattern.
// bounds: six grammars; text of up to 5 pieces (6 thorough) of the terminals and blanks.
func H_C17_compiled() {
	p := hw.MustCompile([...]string{
		"a -> stmt*; stmt -> 'let' name=id '=' e ';' | e ';'; e -> @:>'+' > @<:'*' > id | '(' e ')'; id -> /{x}; .wrapRE -> /{\\s*()\\s*};",
		"a -> %!list(id, '+') rest=(';' %!list(num, ';'))?; .macro list(i, sep) { i (sep i)* } id -> /{x}; num -> '='; ",
		"a -> '(' a:',', ')' | id; id -> n=/{(x)|\\+};",
		"a -> pair:';' { pair -> k=id '=' v=(id | a); id -> /{x}; };",
		"a -> 'let'? (?=id) v=/{x} %v? | e; e -> '(' e? ')'; id -> 'x';",
		"a -> @<:op='+' > '*' @ | @ ('(' args=a:'=' ')')? > id; id -> /{x};",
	}[vsym.Choose("grammar", 6)])
	src := ""
	pieces := []string{"x", "+", "(", ")", "let", "=", ";", "*", " "}
	for i, n := 0, vsym.Choose("length", h.Pick(5, 6)); i < n; i++ {
		src += pieces[vsym.Choose("piece", len(pieces))]
	}
	check(hw.StripAll(hw.Unstack(p.Grammar())), p, src)
}
