package c21

import (
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
)

type refused struct{}

func (refused) Error() string { return "refused" }

func handlers() parser.ExternalRefs {
	return parser.ExternalRefs{"e": func(_ parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		var eaten parser.Scanner
		if input.String() == "" {
			return nil, refused{}
		}
		input.Eat(1, &eaten)
		return eaten, nil
	}}
}

// shared is everything that concurrent uses of a parser have in common.
type shared struct {
	p    parser.Parsers
	exts parser.ExternalRefs
	te   parser.TreeElement // the tree of an earlier parse, if it succeeded
	a    ast.Branch
	err  error
}

func tree(p parser.Parsers, src string, exts parser.ExternalRefs) (parser.TreeElement, error) {
	te, err := p.ParseWithExternals("a", parser.NewScanner(src), exts)
	if u, ok := err.(parser.UnconsumedInputError); ok {
		return u.Result(), err
	}
	return te, err
}

func convert(p parser.Parsers, te parser.TreeElement) (a ast.Branch) {
	h.Panics(func() { a = ast.FromParserNode(p.Grammar(), te) }) // there are grammars whose trees can't be converted
	return
}

// use does with a tree whatever can be done with it.
func use(p parser.Parsers, te parser.TreeElement, a ast.Branch) {
	var sb strings.Builder
	_, _ = p.Unparse(te, &sb)
	if n, ok := te.(parser.Node); ok {
		_ = n.String()
		n.Normalize()
		diff.NewNodeDiff(&n, &n)
	}
	if a == nil {
		return
	}
	h.Panics(func() {
		ast.ToParserNode(p.Grammar(), a)
	})
	_ = a.String()
	for name := range a {
		a.One(name)
		a.Many(name)
		ast.First(a, name)
		ast.All(a, name)
	}
	ast.Choice(a)
	h.Panics(func() { a.Scanner() })
	ast.BuildTreeView("a", a, true)
	a.ContentEquals(a)
}

// check parses first, and then, while everything is shared, second, and uses what it and the first parse gave.
func check(g parser.Grammar, p parser.Parsers, first, second string) {
	vsym.Note(func() string {
		return "grammar: " + g.String() + "   sources: " + strconv.Quote(first) + " " + strconv.Quote(second)
	})
	s := &shared{p: p, exts: handlers()}
	s.te, s.err = tree(p, first, s.exts)
	if s.te != nil {
		s.a = convert(p, s.te)
	}
	vsym.Shared(s, func() {
		te, err := tree(s.p, second, s.exts)
		if err != nil {
			_ = err.Error()
		}
		if s.err != nil {
			_ = s.err.Error()
		}
		if te != nil {
			use(s.p, te, convert(s.p, te))
		}
		if s.te != nil {
			use(s.p, s.te, s.a)
			convert(s.p, s.te)
		}
		_ = s.p.Grammar().String()
		s.p.HasRule("b")
	})
	if s.te != nil {
		vsym.Cover("tree")
	}
	again, err := tree(p, first, s.exts)
	vsym.Assert((err == nil) == (s.err == nil) && (again == nil) == (s.te == nil), "the outcome of a parse depends on the parses before")
	if again != nil {
		hw.SameTree(again, s.te, "the second of two parses of a text")
	}
}

const (
	a, b = parser.Rule("a"), parser.Rule("b")
	x    = parser.S("x")
)

func named(n string, t parser.Term) parser.Term { return parser.Named{Name: n, Term: t} }

func gen(ops string, leaves ...parser.Term) *h.Gen {
	return &h.Gen{Ops: ops, NoLit: true, Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 0}, {1, 3}}, Leaves: leaves,
		Delims: []parser.Delim{{}, {CanStartWithSep: true, CanEndWithSep: true}, {Assoc: parser.LeftToRight}, {Assoc: parser.RightToLeft}}}
}

// Grammars of every operator. Everything two uses of a parser have in common - it, its grammar, handlers, an earlier tree and
// syntax tree, and the package's variables - is only read.
// bounds: a term of up to 2 operators of sequence, choice, quantifier, lookahead, name and delimiter over a literal, a
// pattern, a rule, a back-reference and an external reference; a text <=1 byte over {x,y} (2 thorough) after the text yx.
func H_C21_terms() {
	t := gen("soqlnd", x, parser.RE("(y+)|x"), b, parser.REF{Ident: "n", Default: x}, parser.ExtRef("e")).UpTo(2)
	g := parser.Grammar{"a": parser.Seq{parser.Opt(named("n", parser.S("y"))), t}, "b": parser.Oneof{parser.Seq{x, x}, named("b", parser.S("y"))}}
	check(g, g.Compile(nil), "yx", h.Text("second", h.Pick(1, 2), "xy"))
}

var texts = []string{
	"a -> stmt*; stmt -> 'y' name=id 'x' e 'y' | e 'y'; e -> @:>'y' > @<:'x' > id | 'x' e 'y'; id -> /{x}; .wrapRE -> /{\\s*()\\s*};",
	"a -> %!list(id, 'y') rest=('x' %!list('y', 'x'))?; .macro list(i, sep) { i (sep i)* } id -> /{x};",
	"a -> n=/{(x)|y+}:,'y', | 'x' %n='y';",
	"a -> pair:'y' { pair -> k=id 'x' v=(id | a); id -> /{x}; } b; b -> ('x' | 'y' b) { c -> 'x'; };",
	"a -> 'y'? (?=b) v=/{x} %v? | %%e 'y'; b -> 'x';",
	"a -> @<:op='y' > 'x' @ | @ ('y' args=a:'x' 'y')? > /{x};",
	"a -> @ 'x'? > @:>'y' > b 'y' | 'y' @ { b -> @:'y' > 'x'; };",
}

// Grammars of the language: stacks, nested grammars, macros, wrapping patterns and commit points.
// bounds: 7 grammars; two texts <=4 bytes over {x,y}, one of them one of five.
func H_C21_compiled() {
	n := vsym.Choose("grammar", len(texts))
	p := hw.MustCompile(texts[n])
	check(p.Grammar(), p, []string{"x", "xyx", "yxxy", "xx", "y"}[vsym.Choose("first", 5)], h.Text("second", h.Pick(3, 4), "xy"))
}

var remembering = []string{
	"a -> n=(/{x|y} 'y'?) 'x'? %n;",
	"a -> n=/{(x|y)(y?)} %n;",
	"a -> (n=(/{[xy]} 'x'?) %n)+;",
	"a -> 'y'? n=('x' /{x|y})? %n='y';",
	"a -> n=b 'x' %n { b -> ('x' | 'y')+; };",
	"a -> n=b:'x' 'x' 'x' m=%n %m?; b -> 'y' 'x'?;",
	"a -> n=/{x|y} (m=('x' %n) %m | %n 'y')*;",
	"a -> @:n='y' > n=('x' | 'y' 'x') %n > 'x';",
}

// What a parser makes of a text doesn't depend on the texts it has parsed before.
// bounds: 8 grammars whose back-references refer to tokens, groups, rules and lists; two texts, <=3 and <=4 bytes over {x,y} (4 and 5 thorough), the
// second compared with what a parser made for it gives.
func H_C21_history() {
	p := hw.MustCompile(remembering[vsym.Choose("grammar", len(remembering))])
	first, second := h.Text("first", h.Pick(3, 4), "xy"), h.Text("second", h.Pick(4, 5), "xy")
	vsym.Note(func() string { return "sources: " + strconv.Quote(first) + " " + strconv.Quote(second) })
	used, fresh := p.Grammar().Compile(nil), p.Grammar().Compile(nil)
	tree(used, first, nil)
	got, err := tree(used, second, nil)
	want, why := tree(fresh, second, nil)
	vsym.Assert((err == nil) == (why == nil) && (got == nil) == (want == nil), "the outcome of a parse depends on the parses before")
	if got != nil {
		vsym.Cover("tree")
		hw.SameTree(got, want, "a text parsed after another")
	}
}

// Making a parser of a grammar, resolving its stacks, comparing and printing it only read it; so they do if the slices it is made
// of have room to grow in.
// bounds: a rule of up to 2 operators with a back- or external reference, next to a stack of three layers and nested grammars with
// stacks, with and without room.
func H_C21_compile() {
	room := vsym.Bool("room")
	seq := func(ts ...parser.Term) []parser.Term {
		if room {
			return append(make([]parser.Term, 0, 8), ts...)
		}
		return ts
	}
	t := gen("soqlnd", x, parser.RE("y"), b, parser.REF{Ident: "n", Default: x}, parser.ExtRef("e")).UpTo(h.Pick(1, 2))
	inner := parser.Grammar{"c": parser.Stack(seq(parser.Delim{Term: parser.At, Sep: parser.S("y")}, t, x)), "d": parser.Oneof(seq(x, parser.Rule("c")))}
	g := parser.Grammar{
		"a": parser.Stack(seq(parser.Delim{Term: parser.At, Sep: x, Assoc: parser.LeftToRight}, parser.Oneof(seq(parser.Seq(seq(x, parser.At)), parser.At)),
			parser.Seq(seq(parser.CutPoint{Term: x}, t)))),
		"b":       parser.ScopedGrammar{Term: parser.Seq(seq(parser.Rule("c"), parser.Opt(parser.Rule("d")))), Grammar: inner},
		"z":       parser.ScopedGrammar{Term: parser.Stack(seq(parser.Delim{Term: parser.At, Sep: t}, parser.ScopedGrammar{Term: parser.Rule("c"), Grammar: inner})), Grammar: parser.Grammar{}},
		".wrapRE": parser.RE(`\s*()\s*`),
	}
	vsym.Note(func() string { return "grammar: " + g.String() })
	vsym.Shared(g, func() {
		_ = g.String()
		g.ResolveStacks()
		diff.Grammars(g, g)
		var p parser.Parsers
		if !h.Panics(func() { p = g.Compile(nil) }) {
			_, _ = p.Parse("a", parser.NewScanner("xxx"))
			_ = p.Grammar().String()
		}
	})
}

// A grammar is made of a syntax tree, which is only read; compiling texts leaves the language's own parser as it was.
// bounds: 7 grammars.
func H_C21_read() {
	text := texts[vsym.Choose("grammar", len(texts))]
	core := wbnf.Core()
	te, err := core.Parse("grammar", parser.NewScanner(text))
	vsym.Assert(err == nil, "refuses a well-formed grammar")
	tree := ast.FromParserNode(core.Grammar(), te)
	vsym.Shared([]any{core, te, tree}, func() {
		wbnf.NewFromAst(tree)
		_, err := wbnf.Compile(text, nil)
		vsym.Assert(err == nil, "refuses a well-formed grammar")
	})
}
