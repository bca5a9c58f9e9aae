package c22

import (
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
)

// twice gets what f returns with maps in the order of insertion and in another order, which has to be the same.
func twice(what string, f func() string) {
	vsym.MapOrders(0)
	first := f()
	vsym.MapOrders(1)
	second := f()
	vsym.MapOrders(0)
	vsym.Note(func() string { return what + ": " + strconv.Quote(first) + " or " + strconv.Quote(second) })
	vsym.Assert(first == second, what+" depends on the order of a map")
}

type stop struct{}

func (stop) Error() string { return "stopped" }
func (stop) IsStopError()  {}

// outcome describes the tree of src, or how parsing it failed.
func outcome(p parser.Parsers, src string, exts parser.ExternalRefs) string {
	te, err := p.ParseWithExternals("a", parser.NewScanner(src), exts)
	switch e := err.(type) {
	case nil:
		return "parsed " + flat(te)
	case parser.UnconsumedInputError:
		return "left over " + e.Residue().String() + " " + flat(e.Result())
	case parser.FatalError:
		return "committed"
	case parser.StopError:
		return "stopped"
	}
	return "refused"
}

// flat writes down a tree with the offsets of its tokens.
func flat(te parser.TreeElement) string {
	switch te := te.(type) {
	case parser.Scanner:
		return strconv.Itoa(te.Offset()) + strconv.Quote(te.String())
	case parser.Node:
		r := te.Tag
		switch e := te.Extra.(type) {
		case parser.Choice:
			r += "|" + strconv.Itoa(int(e))
		case parser.Associativity:
			r += ":" + strconv.Itoa(int(e))
		}
		r += "("
		for _, c := range te.Children {
			r += flat(c) + " "
		}
		return r + ")"
	case parser.Empty:
		return "{}"
	}
	return "?"
}

const (
	a, b, c, d = parser.Rule("a"), parser.Rule("b"), parser.Rule("c"), parser.Rule("d")
	x, y       = parser.S("x"), parser.S("y")
)

func grammars() []parser.Grammar {
	at := parser.At
	return []parser.Grammar{
		{"a": b, "b": c, "c": parser.Oneof{parser.Seq{x, d}, d}, "d": y},
		{"a": parser.Stack{parser.Delim{Term: at, Sep: y, Assoc: parser.LeftToRight}, parser.Oneof{b, parser.Seq{y, at}}, x}, "b": parser.Stack{parser.Seq{at, y}, x}},
		{"a": parser.Seq{parser.ScopedGrammar{Term: parser.Seq{b, c, d}, Grammar: parser.Grammar{"b": c, "c": parser.Oneof{x, parser.Seq{}}, "d": parser.Stack{parser.Delim{Term: at, Sep: x}, y}}}, parser.Opt(b)}, "b": x, "c": b},
		{"a": parser.Seq{parser.Some(b), parser.REF{Ident: "b"}}, "b": parser.Oneof{parser.RE("x+"), y}, ".wrapRE": parser.RE("()x?")},
		{"a": parser.Oneof{parser.Seq{parser.CutPoint{Term: x}, parser.Opt(parser.Seq{parser.CutPoint{Term: y}, b}), y}, b}, "b": parser.Seq{x, parser.Oneof{parser.Seq{parser.CutPoint{Term: x}, y}, x}}},
		{"a": parser.Seq{parser.Eq("n", b), parser.Any(parser.Seq{parser.ExtRef("e"), parser.Opt(parser.ExtRef("f"))})}, "b": parser.Oneof{x, y}},
	}
}

// Parsers of grammars: the rules are a map, and so are the scope and the handlers.
// bounds: 6 grammars of up to 4 rules, with aliases, stacks, nested grammars, a wrapping pattern, commit points or handlers; text <=3 bytes over {x,y}; every
// order of up to three entries, rotations and reversals of more, for one iteration, or all backwards.
func H_C22_parse() {
	g := grammars()[vsym.Choose("grammar", 6)]
	src := h.Text("text", h.Pick(2, 3), "xy")
	vsym.Note(func() string { return "grammar: " + g.String() + "   source: " + strconv.Quote(src) })
	eat := func(c byte) parser.ExternalRef {
		return func(_ parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			var eaten parser.Scanner
			if s := input.String(); s == "" || s[0] != c {
				return nil, stop{}
			}
			input.Eat(1, &eaten)
			return eaten, nil
		}
	}
	twice("a parse", func() string {
		exts := parser.ExternalRefs{}
		exts["e"], exts["f"] = eat('x'), eat('y')
		p := g.Compile(nil)
		return outcome(p, src, exts) + " with " + p.Grammar().String()
	})
}

var texts = []string{
	"a -> b 'x'; b -> c | d 'y'; c -> 'z'; d -> 'x';",
	"a -> @:'+' > @:'x' > b; b -> 'y' | '(' a ')' { c -> 'x'; d -> c; };",
	"a -> %!m(b, 'y') %!n(c); b -> 'x'; c -> 'z' | b; .macro m(p, q) { p q p } .macro n(r) { r+ }",
	"a -> b?:','; b -> n='x' m='y' | n='z'; .wrapRE -> /{\\s*()};",
	"a -> b 'x'; b -> a 'y' | c; c -> b | 'x';",
	"a -> b; b -> c; c -> (d | 'x')*; d -> e; e -> f; f -> d 'x';",
	"a -> b; c -> d; e -> g; f -> %!q('x');",
	"a -> b; b -> (c 'y' { c -> (d 'x')?; d -> c; }); c -> a;",
	"a -> 'x'; a -> 'y'; b -> 'z'; b -> 'x';",
	"a -> 'x' /{(}; b -> /{[}; c -> 'y'{3,2};",
	"a -> @ > 'x'; b -> 'y' > @; @ -> 'x'; .wrapRE -> 'x';",
}

// Compiling texts, well-formed and not: the grammar or the message.
// bounds: 11 texts, 7 of them not well-formed; orders as above.
func H_C22_compile() {
	text := texts[vsym.Choose("text", len(texts))]
	twice("compiling", func() string {
		p, err := wbnf.Compile(text, nil)
		if err != nil {
			vsym.Cover("error")
			return "error " + err.Error()
		}
		vsym.Cover("grammar")
		return p.Grammar().String()
	})
}

var sources = [][2]string{
	{"a -> (b | n='x' | 'y' m=c)* c?; b -> 'p' d:','; c -> '+' b?; d -> m='z' n='x' 'x'?;", "xpzx,zxxy++pzx"},
	{"a -> @:>op='+' > @<:op='*' > @:'&' > b; b -> k='x' v='y'? | '(' a ')';", "xy*x*x+(x&xy)+x"},
	{"a -> c=b 'x' %c b { b -> n='y' m=d; d -> 'p' | 'q'; } e?; e -> 'z';", "ypxypyqz"},
}

// What is made of a parse: syntax trees, the way back, printing, comparison, and finding things in them.
// bounds: 3 grammars with a text each; orders as above.
func H_C22_trees() {
	s := sources[vsym.Choose("grammar", len(sources))]
	p := hw.MustCompile(s[0])
	te, err := p.Parse("a", parser.NewScanner(s[1]))
	vsym.Assert(err == nil, "refuses a text of the grammar")
	n := te.(parser.Node)
	g := p.Grammar()
	switch vsym.Choose("what", 6) {
	case 0:
		twice("the syntax tree", func() string { return ast.FromParserNode(g, te).String() })
	case 1:
		twice("the way back", func() string { return flat(ast.ToParserNode(g, ast.FromParserNode(g, te))) })
	case 2:
		t := ast.FromParserNode(g, te)
		vsym.Assert(ast.BuildTreeView("a", t, true) != "", "nothing printed")
		twice("the tree view", func() string {
			return ast.BuildTreeView("a", t, true) + ast.BuildTreeView("a", t, false)
		})
	case 3:
		t, u := ast.FromParserNode(g, te), ast.FromParserNode(g, te)
		twice("what is found in a syntax tree", func() string {
			s := t.Scanner()
			r := strconv.Itoa(s.Offset()) + s.String() + strconv.FormatBool(t.ContentEquals(u)) + strconv.Itoa(ast.Choice(t))
			for _, name := range []string{"", "b", "c", "n", "@choice"} {
				for _, k := range ast.All(t, name) {
					r += k.String()
				}
				if f := ast.First(t, name); f != nil {
					r += f.String()
				}
			}
			return r
		})
	case 4:
		twice("the text of a tree", func() string {
			var sb strings.Builder
			_, err := p.Unparse(te, &sb)
			return sb.String() + strconv.FormatBool(err == nil)
		})
	case 5:
		u, err := p.Parse("a", parser.NewScanner(s[1]))
		vsym.Assert(err == nil, "refuses a text of the grammar")
		m := u.(parser.Node)
		twice("a comparison", func() string {
			return diff.NewNodeDiff(&n, &m).String() + strconv.FormatBool(diff.Grammars(g, g).Equal())
		})
	}
}

// Syntax trees of marks, empty branches and tokens of the same place: the tree view has an order of its own.
// bounds: three to four names with one of four kinds of children each; orders as above.
func H_C22_view() {
	src := parser.NewScanner("some text")
	kid := func() ast.Node {
		switch vsym.Choose("kid", 4) {
		case 0:
			return ast.Leaf(*src.Slice(0, 4))
		case 1:
			return ast.Extra{Data: parser.Choice(1)}
		case 2:
			return ast.Branch{}
		}
		return ast.Branch{"": ast.One{Node: ast.Leaf(*src.Slice(5, 9))}, "q": ast.One{Node: ast.Branch{}}}
	}
	t := ast.Branch{}
	for _, name := range []string{"n", "m", "", "@x"}[:h.Pick(3, 4)] {
		t[name] = ast.One{Node: kid()}
	}
	t["n"] = ast.Many{kid(), t["n"].(ast.One).Node}
	twice("the tree view", func() string { return ast.BuildTreeView("a", t, false) })
}

// Names that are alike: they differ in case, in an underscore or in length only.
// bounds: three of six names (four thorough) for the rules of a grammar, a nested one, the names in a tree and in a syntax tree; orders as above.
func H_C22_names() {
	all := []string{"foo", "FOO", "Foo", "_foo", "foo_", "fo"}
	var names []string
	from := 0
	for i := 0; i < h.Pick(3, 4); i++ {
		from += vsym.Choose("name", len(all)-from-h.Pick(2, 3)+i)
		names = append(names, all[from])
		from++
	}
	vsym.Note(func() string { return strings.Join(names, " ") })
	body := parser.Seq{}
	g, inner := parser.Grammar{}, parser.Grammar{}
	for _, n := range names {
		body = append(body, parser.Named{Name: n, Term: x})
		g[parser.Rule(n)] = parser.S(n)
		inner[parser.Rule(n)] = parser.Oneof{parser.S(n), x}
	}
	g["a"] = parser.ScopedGrammar{Term: body, Grammar: inner}
	text := strings.Repeat("x", len(names))
	switch vsym.Choose("what", 5) {
	case 0:
		twice("a printed grammar", func() string { return g.String() + g.ResolveStacks().String() })
	case 1:
		twice("the generated grammar", func() string { return codegen.MakeGrammarString(g).String() })
	case 2:
		p := g.Compile(nil)
		twice("a parse", func() string { return outcome(p, text, nil) + p.Grammar().String() })
	case 3:
		p := g.Compile(nil)
		te, err := p.Parse("a", parser.NewScanner(text))
		vsym.Assert(err == nil, "refuses a text of the grammar")
		twice("the syntax tree", func() string {
			t := ast.FromParserNode(g, te)
			return t.String() + ast.BuildTreeView("a", t, true) + ast.BuildTreeView("a", t, false) + flat(ast.ToParserNode(g, t))
		})
	case 4:
		other := parser.Grammar{}
		for n, t := range g {
			other[n] = t
		}
		other[parser.Rule(names[0])] = y
		delete(other, parser.Rule(names[1]))
		delete(other, parser.Rule(names[2]))
		twice("a comparison", func() string {
			r := ""
			for _, d := range []diff.GrammarDiff{diff.Grammars(g, other), diff.Grammars(other, g)} {
				r += strconv.FormatBool(d.Equal())
				for _, rule := range append(d.OnlyInA, d.OnlyInB...) {
					r += " " + string(rule)
				}
			}
			return r
		})
	}
}

var generated = []string{
	"a -> b 'x'; b -> c | d 'y'; c -> 'z'; d -> 'x';",
	"a -> @:'+' > b | n=c; b -> 'y' | '(' a ')' { c -> 'x'; d -> c; }; c -> /{z}:op=','; d -> b*;",
	"a -> b=('x' c) 'z'; aB -> 'y' d? c; c -> 'z'; d -> 'x'; A -> (c d)? 'y'; B -> d;",
	"a -> n=(m='x' k=b?) 'y' %n; b -> a:',' b?; ab -> 'x'; an -> n=b;",
}

// Generated code: the grammar, the types and the walker.
// bounds: 4 grammars, two of their names giving the same Go names; orders as above.
func H_C22_generate() {
	p := hw.MustCompile(generated[vsym.Choose("grammar", len(generated))])
	node := p.Node().(wbnf.GrammarNode)
	switch vsym.Choose("what", 4) {
	case 0:
		twice("the generated grammar", func() string { return codegen.MakeGrammarString(p.Grammar()).String() })
	case 1:
		twice("the generated types", func() string {
			r := ""
			for _, s := range codegen.MakeTypes(node).Get() {
				r += s.String()
			}
			return r
		})
	case 2:
		types := codegen.MakeTypes(node).Types()
		twice("the generated walker", func() string { return codegen.GetVisitorWriter(types, "a").String() })
	case 3:
		twice("the generated names", func() string { return codegen.IdentsWriter{GrammarNode: node}.String() })
	}
}
