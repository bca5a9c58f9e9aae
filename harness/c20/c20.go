package c20

import (
	"errors"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

var errFull = errors.New("writer is full")

// sink accepts cap bytes, then fails every write.
type sink struct {
	got  string
	left int
	errs int
}

func (s *sink) Write(p []byte) (int, error) {
	if len(p) > s.left {
		n := s.left
		s.got += string(p[:n])
		s.left = 0
		s.errs++
		return n, errFull
	}
	s.left -= len(p)
	s.got += string(p)
	return len(p), nil
}

func without(s, gap string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		keep := true
		for j := 0; j < len(gap); j++ {
			if s[i] == gap[j] {
				keep = false
			}
		}
		if keep {
			r += s[i : i+1]
		}
	}
	return r
}

// check parses src and unparses the tree: what is written has to be the consumed text without the bytes of gap, which
// are those the grammar matches outside its tokens only.
func check(gr parser.Grammar, rule parser.Rule, src, gap string) {
	vsym.Note(func() string { return gr.String() })
	vsym.Note(func() string { return src })
	p := gr.Compile(nil)
	te, err := p.Parse(rule, parser.NewScanner(src))
	if err != nil {
		u, ok := err.(parser.UnconsumedInputError)
		if !ok {
			return
		}
		vsym.Cover("prefix")
		te = u.Result()
		src = src[:u.Residue().Offset()]
	}
	vsym.Cover("tree")
	want := without(src, gap)
	vsym.Note(func() string { return "tree: " + te.(interface{ String() string }).String() })
	all := &sink{left: 100}
	n, err := p.Unparse(te, all)
	vsym.Assert(err == nil, "error although the writer reported none")
	vsym.Assert(all.got == want, "unparsed text")
	vsym.Assert(n == len(want), "number of bytes written")
	for room := 0; room < len(want); room++ {
		some := &sink{left: room}
		n, err = p.Unparse(te, some)
		vsym.Assert(n == room, "number of bytes written by a writer that fails")
		vsym.Assert(some.got == want[:room], "text written before the error")
		vsym.Assert(err == errFull, "error of the writer is not passed on")
		vsym.Assert(some.errs == 1, "writes go on after an error")
	}
}

var delims = []parser.Delim{{}, {CanStartWithSep: true, CanEndWithSep: true}, {Assoc: parser.LeftToRight, CanEndWithSep: true}, {Assoc: parser.RightToLeft, CanStartWithSep: true},
	{Assoc: parser.RightToLeft, CanEndWithSep: true}, {Assoc: parser.LeftToRight, CanStartWithSep: true}}

// Grammars without wrapping pattern: unparsing gives the consumed text, whatever terms made the tree.
// bounds: terms of up to 2 operators of sequence, choice, quantifier, delimiter, name, lookahead around literals, a
// pattern and a rule; text <=4 bytes over {x,y}; a writer that fails after every number of bytes.
func H_C20_terms() {
	g := h.Gen{Ops: "soqdnl", Lit: "xy", Leaves: []parser.Term{parser.Rule("b"), parser.RE("[^x]?")}, Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 0}, {1, 2}}, Delims: delims}
	t := g.UpTo(2)
	vsym.Assume(!h.Clash(t, ""))
	check(parser.Grammar{"a": t, "b": parser.Seq{parser.S("x"), parser.Opt(parser.RE("yx?"))}}, "a", h.Text("src", h.Pick(4, 5), "xy"), "")
}

// Delimited repetitions of compound terms and separators, nested in each other, as a rule, named and unnamed.
// bounds: 6 shapes of term, 3 of separator, 18 combinations of direction and options; text <=6 bytes over {x,y,comma} (7 thorough).
func H_C20_delim() {
	d := parser.Delim{Assoc: [...]parser.Associativity{0, parser.LeftToRight, parser.RightToLeft}[vsym.Choose("assoc", 3)], CanStartWithSep: vsym.Bool("lead"), CanEndWithSep: vsym.Bool("trail")}
	inner := parser.Delim{Term: parser.S("x"), Sep: parser.S("y"), Assoc: [...]parser.Associativity{0, parser.LeftToRight, parser.RightToLeft}[vsym.Choose("iassoc", 3)], CanEndWithSep: true}
	switch vsym.Choose("term", 6) {
	case 0:
		d.Term = parser.S("x")
	case 1:
		d.Term = inner
	case 2:
		d.Term = parser.Named{Name: "n", Term: inner}
	case 3:
		d.Term = parser.Rule("b")
	case 4:
		d.Term = parser.Seq{parser.S("x"), parser.Opt(parser.S("y")), parser.LookAhead{Term: parser.RE(",?")}}
	case 5:
		d.Term = parser.Oneof{inner, parser.S("y")}
	}
	switch vsym.Choose("sep", 3) {
	case 0:
		d.Sep = parser.S(",")
	case 1:
		d.Sep = parser.Seq{parser.S(","), parser.LookAhead{Term: parser.RE("[xy]")}, parser.Opt(parser.S("y"))}
	case 2:
		d.Sep = parser.Oneof{parser.Some(parser.S(",")), parser.S("yy")}
	}
	var t parser.Term = d
	if vsym.Bool("wrapped") {
		t = parser.Seq{parser.Named{Name: "list", Term: d}, parser.Opt(d)}
	}
	vsym.Assume(!h.Clash(t, ""))
	check(parser.Grammar{"a": t, "b": inner}, "a", h.Text("src", h.Pick(5, 7), "xy,"), "")
}

// With a wrapping pattern or capture groups what is written are the tokens alone.
// bounds: terms of up to 1 operator (2 thorough) with blanks around every terminal; patterns with blanks or dashes around the captured text; text <=4 bytes over {x,y,space}.
func H_C20_gaps() {
	g := h.Gen{Ops: "sodql", Lit: "xy", Leaves: []parser.Term{parser.Rule("b"), parser.RE("x|()y")}, Quants: [][2]int{{0, 1}, {1, 2}}, Delims: delims[:4]}
	gr := parser.Grammar{"a": g.UpTo(h.Pick(1, 2)), "b": parser.Seq{parser.S("x"), parser.Opt(parser.RE("y+"))},
		parser.WrapRE: parser.RE([...]string{`\s*()\s*`, `()\s*`, ` *()`}[vsym.Choose("wrap", 3)])}
	vsym.Assume(!h.Clash(gr["a"], ""))
	src := h.Text("src", 4, "xy ")
	vsym.Assume(!emptyY(gr["a"], src))
	check(gr, "a", src, " ")
}

// emptyY: the pattern x|()y drops its y.
func emptyY(t parser.Term, src string) bool {
	switch t := t.(type) {
	case parser.RE:
		return h.Count(src, 'y') > 0
	case parser.Seq:
		return emptyY(t[0], src) || emptyY(t[1], src)
	case parser.Oneof:
		return emptyY(t[0], src) || emptyY(t[1], src)
	case parser.Quant:
		return emptyY(t.Term, src)
	case parser.LookAhead:
		return emptyY(t.Term, src)
	case parser.Delim:
		return emptyY(t.Term, src) || emptyY(t.Sep, src)
	}
	return false
}

// bounds: sequences, repetitions and lists of two captured patterns of 5; text <=5 bytes over {x,y,-}.
func H_C20_captured() {
	pats := []string{`-*(x)-?`, `(x|y)-`, `(?:-)(y*)`, `(x?)-`, `-(x*)|y`}
	a := parser.RE(pats[vsym.Choose("p", len(pats))])
	b := parser.RE(pats[vsym.Choose("q", len(pats))])
	t := [...]parser.Term{parser.Seq{a, parser.Named{Name: "n", Term: b}}, parser.Any(parser.Oneof{a, b}), parser.Delim{Term: a, Sep: b, Assoc: parser.LeftToRight},
		parser.Seq{parser.Some(a), parser.LookAhead{Term: parser.Opt(a)}, parser.Opt(b), parser.Any(parser.S("x"))}}[vsym.Choose("shape", 4)]
	check(parser.Grammar{"a": t}, "a", h.Text("src", h.Pick(4, 6), "xy-"), "-")
}

// Rules of every kind as the root: a token, a reference, a name, a stack, a nested grammar that shadows or uses rules of
// the enclosing one, back-references and their defaults, external references.
// bounds: 16 rules; text <=5 bytes over {x,y,+} (6 thorough).
func H_C20_rules() {
	at := parser.At
	x, y, plus := parser.S("x"), parser.S("y"), parser.S("+")
	xy := parser.Seq{x, parser.Opt(y)}
	n := func(t parser.Term) parser.Term { return parser.Named{Name: "n", Term: t} }
	stack := parser.Stack{parser.Delim{Term: at, Sep: plus, Assoc: parser.LeftToRight}, parser.Delim{Term: at, Sep: y, Assoc: parser.RightToLeft}, parser.Oneof{x, parser.Seq{plus, at, plus}}}
	gr := parser.Grammar{
		"tok": x, "re": parser.RE("x*y"), "xy": xy, "ref": parser.Rule("xy"), "reftok": parser.Rule("tok"), "named": n(xy), "namedref": n(parser.Rule("xy")),
		"ext":      parser.Seq{x, n(plus)},
		"stack":    stack,
		"stacks":   parser.Some(parser.Seq{parser.Rule("stack"), parser.Opt(plus)}),
		"nested":   parser.ScopedGrammar{Term: parser.Seq{parser.Rule("xy"), parser.Rule("ext")}, Grammar: parser.Grammar{"xy": parser.Oneof{y, plus}}},
		"up":       parser.ScopedGrammar{Term: parser.Delim{Term: parser.Rule("m"), Sep: plus}, Grammar: parser.Grammar{"m": parser.Seq{x, parser.Rule("xy")}, "tok": y}},
		"deep":     parser.ScopedGrammar{Term: parser.Seq{x, parser.ScopedGrammar{Term: parser.Some(parser.Rule("tok")), Grammar: parser.Grammar{"tok": parser.Oneof{plus, parser.Rule("q")}}}}, Grammar: parser.Grammar{"q": parser.Seq{y, parser.Rule("tok")}}},
		"nstack":   parser.ScopedGrammar{Term: parser.Seq{parser.Opt(y), parser.Rule("stack")}, Grammar: parser.Grammar{"stack": stack}},
		"alias":    parser.ScopedGrammar{Term: parser.Rule("xy"), Grammar: parser.Grammar{"xy": parser.Seq{y, parser.LookAhead{Term: plus}}}},
		"alias2":   parser.ScopedGrammar{Term: parser.ScopedGrammar{Term: parser.Rule("tok"), Grammar: parser.Grammar{"tok": parser.Rule("q")}}, Grammar: parser.Grammar{"q": parser.Some(parser.Rule("tok"))}},
		"backref":  parser.Seq{n(parser.RE("x*")), parser.Any(plus), parser.REF{Ident: "n"}},
		"def":      parser.Any(parser.Seq{parser.Opt(n(y)), parser.REF{Ident: "m", Default: x}}),
		"backnode": parser.Seq{n(parser.Seq{x, parser.Any(y)}), plus, parser.REF{Ident: "n"}},
	}
	rules := [...]parser.Rule{"tok", "re", "reftok", "ref", "named", "namedref", "stack", "stacks", "nested", "up", "deep", "nstack", "alias", "alias2", "backref", "def", "backnode"}
	check(gr, rules[vsym.Choose("rule", len(rules))], h.Text("src", h.Pick(5, 6), "xy+"), "")
}

// The tree an external reference supplies is written token by token.
// bounds: three trees an external may return; text <=4 bytes over {x,y}.
func H_C20_external() {
	kind := vsym.Choose("kind", 3)
	gr := parser.Grammar{"a": parser.Seq{parser.S("x"), parser.ExtRef("e"), parser.Opt(parser.S("x"))}}
	sub := parser.Grammar{"s": parser.Seq{parser.S("y"), parser.Delim{Term: parser.S("x"), Sep: parser.S("y"), CanEndWithSep: true}}}.Compile(nil)
	ext := func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		switch kind {
		case 0:
			te, err := sub.Parse("s", input)
			if u, ok := err.(parser.UnconsumedInputError); ok {
				*input = *u.Residue()
				return u.Result(), nil
			}
			if err == nil {
				*input = *input.Skip(len(input.String()))
			}
			return te, err
		case 1:
			n := len(input.String())
			if n > 2 {
				n = 2
			}
			tok := *input.Slice(0, n)
			*input = *input.Skip(n)
			return tok, nil
		}
		return parser.Node{Tag: "none"}, nil
	}
	src := h.Text("src", 5, "xy")
	p := gr.Compile(nil)
	te, err := p.ParseWithExternals("a", parser.NewScanner(src), parser.ExternalRefs{"e": ext})
	if err != nil {
		u, ok := err.(parser.UnconsumedInputError)
		if !ok {
			return
		}
		te = u.Result()
		src = src[:u.Residue().Offset()]
	}
	vsym.Cover("tree")
	all := &sink{left: 100}
	n, err := p.Unparse(te, all)
	vsym.Assert(err == nil && all.got == src && n == len(src), "unparsed text")
}
