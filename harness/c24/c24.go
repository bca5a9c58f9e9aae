package c24

import (
	"strconv"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// refuse and stop are the errors of the handlers.
type refuse struct{ pos int }

func (refuse) Error() string { return "refused by the handler" }

type stop struct{ pos int }

func (stop) Error() string { return "stopped by the handler" }
func (stop) IsStopError()  {}

// behaviour decides what handler name does at pos of src, where the name n has the value val (if set).
// "e": a token x, "f": nothing, "g": the text of n, "h": up to two of any character, "s": like e, but stops where there is none.
// The escape is like "e" for the character e.
func behaviour(src, name string, pos int, val string, set bool) (end int, v h.Verdict) {
	rest := src[pos:]
	switch name {
	case "e", "s", "":
		c := "x"
		if name == "" {
			c = "e"
		}
		if h.HasPrefix(rest, c) {
			return pos + 1, h.Done
		}
		if name == "s" || name == "" && h.HasPrefix(rest, "s") {
			return pos, h.Stopped
		}
	case "f":
		return pos, h.Done
	case "g":
		if set && h.HasPrefix(rest, val) {
			return pos + len(val), h.Done
		}
	case "h":
		if len(rest) >= 2 {
			return pos + 2, h.Done
		}
		return pos + len(rest), h.Done
	}
	return pos, h.Refused
}

// node tells which handlers make a node, rather than a token.
func node(name string) bool { return name == "f" || name == "h" || name == "" }

// parse parses src with real handlers, of which it keeps a log; last is the error the last handler that was called returned.
func parse(p parser.Parsers, src string, escape bool) (te parser.TreeElement, err error, log []string, last error) {
	var exts parser.ExternalRefs
	handler := func(name string) parser.ExternalRef {
		return func(sc parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			last = nil
			val, set, state := "", false, "none"
			if _, v, ok := sc.GetVal("n"); ok {
				state = "node"
				if s, ok := v.(parser.Scanner); ok {
					val, set, state = s.String(), true, s.String()
				}
			}
			pos := input.Offset()
			vsym.Assert(input.String() == src[pos:], "the input given to a handler is not what is left of the source")
			log = append(log, name+" "+strconv.Itoa(pos)+" "+state)
			end, v := behaviour(src, name, pos, val, set)
			switch v {
			case h.Refused:
				last = refuse{pos}
				return nil, last
			case h.Stopped:
				last = stop{pos}
				return nil, last
			}
			var eaten parser.Scanner
			input.Eat(end-pos, &eaten)
			if node(name) {
				return parser.Node{Tag: "ext", Children: []parser.TreeElement{eaten}}, nil
			}
			return eaten, nil
		}
	}
	exts = parser.ExternalRefs{}
	for _, name := range []string{"e", "f", "g", "h", "s"} {
		exts[name] = handler(name)
	}
	if escape {
		exts[`*\{:|<():?\}|>`] = handler("")
	}
	te, err = p.ParseWithExternals("a", parser.NewScanner(src), exts)
	return
}

// check compares a parse with the reference: outcome, tree, and what each handler was called with, in order. The grammar
// of a parser that commits is given without its commit points.
func check(g parser.Grammar, p parser.Parsers, src string, escape, commits bool) {
	vsym.Note(func() string { return "grammar: " + g.String() + "   source: " + strconv.Quote(src) })
	var want []string
	m := &h.M{Src: src, Ext: func(name string, pos int, val func(string) *h.T) (int, *h.T, h.Verdict) {
		text, set, state := "", false, "none"
		if t := val("n"); t != nil {
			state = "node"
			if t.Tok {
				text, set, state = src[t.Lo:t.Hi], true, src[t.Lo:t.Hi]
			}
		}
		if name == "z" {
			return pos, nil, h.Stopped // nobody handles it
		}
		want = append(want, name+" "+strconv.Itoa(pos)+" "+state)
		end, v := behaviour(src, name, pos, text, set)
		if v != h.Done {
			return pos, nil, v
		}
		t := &h.T{Tok: true, Lo: pos, Hi: end}
		if node(name) {
			t = &h.T{Tag: "ext", Kids: []*h.T{t}}
		}
		return end, t, h.Done
	}}
	if escape {
		m.Open, m.Close = []string{"{:", "<"}, []string{":}", "}", ">"}
	}
	end, t, ok := m.Rule(g, "a")
	te, err, log, last := parse(p, src, escape)
	vsym.Note(func() string { return "calls: " + h.Join(log) + "   due: " + h.Join(want) })
	done := ok && end == len(src)
	// Once committed, the parser doesn't try alternatives.
	vsym.Assert(len(log) == len(want) || commits && !done && len(log) < len(want), "handlers are called more or less often than due")
	for i := range log {
		vsym.Assert(log[i] == want[i], "a handler is called at another place, or sees another value")
	}
	if len(log) > 0 {
		vsym.Cover("called")
	}
	if commits && !done {
		vsym.Assert(err != nil, "accepts a text the grammar does not describe")
	} else {
		h.CheckOutcome(src, te, err, ok, end, t, "parse")
	}
	if s, is := last.(stop); is {
		vsym.Assert(err == s, "the error a handler stops the parse with is not the result")
		vsym.Cover("stopped")
	}
}

var (
	x = parser.S("x")
	e = parser.ExtRef("e")
	f = parser.ExtRef("f")
	g = parser.ExtRef("g")
	s = parser.ExtRef("s")
	z = parser.ExtRef("z")
)

func gen(ops string, leaves ...parser.Term) *h.Gen {
	return &h.Gen{Ops: ops, NoLit: true, Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 0}, {1, 0}, {2, 3}},
		Leaves: leaves, Delims: []parser.Delim{{}, {CanStartWithSep: true, CanEndWithSep: true}, {Assoc: parser.LeftToRight}}}
}

// Every operator around external references, one of which makes a token, one consumes nothing, one stops the parse, and
// one nobody handles.
// bounds: a rule of up to 2 operators of sequence, choice, quantifier, lookahead and delimiter over four references and a
// literal; text <=3 bytes over {x,y} (4 thorough).
func H_C24_external() {
	t := gen("soqld", x, e, f, s, z).UpTo(2)
	gr := parser.Grammar{"a": t}
	check(gr, gr.Compile(nil), h.Text("text", h.Pick(3, 4), "xy"), false, false)
}

// Handlers see the values matched before them in the enclosing sequences, the last of each name, and none from failed or
// finished ones.
// bounds: a sequence of two or three terms of up to 1 operator over a named pattern, reference to a rule that names, or
// external reference; text <=3 bytes over {x,y} (4 thorough).
func H_C24_scope() {
	name := func(t parser.Term) parser.Term { return parser.Named{Name: "n", Term: t} }
	leaves := []parser.Term{g, name(parser.RE("[xy]")), name(g), x, parser.Rule("b")}
	var t parser.Seq
	for i, n := 0, h.Pick(2, 3); i < n; i++ {
		t = append(t, gen("soql", leaves...).UpTo(1))
	}
	gr := parser.Grammar{"a": append(t, g), "b": parser.Seq{g, name(parser.S("y")), g}}
	check(gr, gr.Compile(nil), h.Text("text", h.Pick(3, 4), "xy"), false, false)
}

// An escape takes the place of any term: before terminals, within sequences, repetitions, choices and delimited lists.
// bounds: a rule of up to 2 operators of sequence, choice, quantifier, lookahead and delimiter over a literal, a pattern,
// and a rule; text of up to 3 pieces (4 thorough) of the terminals and of escapes that succeed, fail, stop the parse, or aren't closed.
func H_C24_escape() {
	ops := "soqld"
	if vsym.Bool("names") {
		ops = "soqln"
	}
	t := gen(ops, x, parser.RE("y+"), parser.Rule("b")).UpTo(2)
	gr := parser.Grammar{"a": t, "b": parser.Named{Name: "n", Term: parser.Oneof{parser.S("xy"), parser.S("y")}}}
	p := gr.Compile(nil)
	check(gr, p, pieces("x", "y", "{:e:}", "<e>"), true, false)
}

func pieces(ps ...string) string {
	r := ""
	for i, n := 0, vsym.Choose("length", h.Pick(4, 5)); i < n; i++ {
		r += ps[vsym.Choose("piece", len(ps))]
	}
	return r
}

// Escapes that fail, stop the parse, or lack their end, and texts that almost are an escape.
// bounds: seven grammars, text of up to 4 bytes (5 thorough) over the characters of escapes and a terminal.
func H_C24_delimiters() {
	gr := [...]parser.Grammar{
		{"a": parser.Quant{Term: x}},
		{"a": parser.Oneof{parser.Seq{x, x}, parser.S("<"), parser.RE("{?:?x"), parser.Seq{}}},
		{"a": parser.Delim{Term: parser.Opt(x), Sep: x, CanStartWithSep: true, CanEndWithSep: true}},
		{"a": parser.Seq{parser.LookAhead{Term: parser.RE("<e|x")}, parser.Quant{Term: parser.RE("[<>ex]")}}},
		{"a": parser.Seq{e, parser.Quant{Term: parser.ExtRef("h")}}},
		{"a": parser.Seq{parser.Named{Name: "n", Term: x}, parser.REF{Ident: "n"}, parser.Quant{Term: parser.REF{Ident: "m", Default: x}}}},
		{"a": parser.Stack{parser.Delim{Term: parser.At, Sep: parser.S(":"), Assoc: parser.LeftToRight}, parser.Seq{parser.Opt(x), parser.Opt(parser.Rule("c"))}}, "c": parser.ScopedGrammar{Term: parser.Rule("d"), Grammar: parser.Grammar{"d": parser.S(">")}}},
	}[vsym.Choose("grammar", 7)]
	check(gr, gr.Compile(nil), h.Text("text", h.Pick(4, 5), "<>xes"), true, false)
}

// Grammars written as text, with the commit points compiling adds.
// bounds: eight grammars, in which handlers don't accept what a literal does; text of up to 3 pieces (4 thorough) of the
// terminals and escapes.
func H_C24_compiled() {
	p := hw.MustCompile([...]string{
		"a -> ('if' %%s | 'w' %%e | %%f 'y')*;",
		"a -> 'if' n=/{[xy]} (%%g | %%h)?;",
		"a -> 'if'? (b | 'y' %%z) ; b -> 'w' %%e | %%s;",
		"a -> ('if':%%e,) | 'y'+;",
		"a -> @:'y' > (?=/{x}) %%s | 'if' %%f %%f;",
		"a -> b*; b -> n=/{[xy]} ('if' %n | %%g 'y')?;",
		"a -> c 'y'? { c -> 'if' d; d -> %%e | %%h %%s; };",
		"a -> 'if' %%e? | 'w' ('y' %%s)?;",
	}[vsym.Choose("grammar", 8)])
	check(hw.StripAll(p.Grammar()), p, pieces("if", "w", "x", "y", "<e>", "{:s"), vsym.Bool("escape"), true)
}

// A handler that parses with a grammar of its own: what is left over for it is left for the rest.
// bounds: an external reference or an escape; the handler parses one of three rules; text <=4 bytes over {x,y,<,>} (5 thorough).
func H_C24_nested() {
	inner := parser.Grammar{"i": parser.Quant{Term: x}, "j": parser.Seq{x, parser.S("y")}, "k": parser.Delim{Term: x, Sep: parser.S("y"), CanEndWithSep: true}}
	ip := inner.Compile(nil)
	rule := parser.Rule([]string{"i", "j", "k"}[vsym.Choose("inner", 3)])
	outer := parser.Grammar{"a": parser.Delim{Term: parser.Oneof{parser.Seq{e, parser.S("y")}, parser.S("y"), e}, Sep: parser.S("x")}}
	src := h.Text("text", h.Pick(4, 5), "xy<>")
	vsym.Note(func() string { return "source: " + src })
	in := func(pos int) (int, *h.T, bool) { return (&h.M{Src: src[pos:]}).Rule(inner, rule) }
	m := &h.M{Src: src, Open: []string{"<"}, Close: []string{">"}, Ext: func(name string, pos int, val func(string) *h.T) (int, *h.T, h.Verdict) {
		end, t, ok := in(pos)
		if !ok || name != "" && pos+end < len(src) {
			return pos, nil, h.Refused // an external reference can't leave input over
		}
		shift(t, pos)
		return pos + end, t, h.Done
	}}
	end, t, ok := m.Rule(outer, "a")
	handler := func(sc parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		own := *input
		te, err := ip.Parse(rule, &own)
		if err == nil {
			*input = own
		}
		return te, err
	}
	te, err := outer.Compile(nil).ParseWithExternals("a", parser.NewScanner(src), parser.ExternalRefs{"e": handler, "*<()>": handler})
	h.CheckOutcome(src, te, err, ok, end, t, "parse")
}

func shift(t *h.T, by int) {
	t.Lo += by
	t.Hi += by
	for _, k := range t.Kids {
		shift(k, by)
	}
}
