package c23

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

const (
	at   = parser.At
	a, b = parser.Rule("a"), parser.Rule("b")
	c, d = parser.Rule("c"), parser.Rule("d")
)

var x, y, z = parser.S("x"), parser.S("y"), parser.S("z")

type (
	seq = parser.Seq
	one = parser.Oneof
	gra = parser.Grammar
	sco = parser.ScopedGrammar
)

func named(n string, t parser.Term) parser.Term { return parser.Named{Name: n, Term: t} }

// body is a rule body over rules b and c.
func body(what string) parser.Term {
	return [...]parser.Term{
		x, y, seq{x, y}, seq{x, parser.Opt(c)}, c, seq{parser.Opt(y), c}, one{seq{z, b}, y}, named("n", seq{c, x}),
	}[vsym.Choose(what, 8)]
}

func leaf(what string) parser.Term {
	return [...]parser.Term{y, z, seq{z, y}, parser.Any(x)}[vsym.Choose(what, 4)]
}

// Two levels: definitions of b and c inside and outside, used inside and after.
// bounds: eight bodies for b, four for c, on each level or missing on the inner one; five uses; text <=4 bytes over {x,y,z} (5 thorough).
func H_C23_two() {
	inner := gra{}
	if vsym.Bool("b inside") {
		inner["b"] = body("inner b")
	}
	if vsym.Bool("c inside") {
		inner["c"] = leaf("inner c")
	} else {
		inner["other"] = x
	}
	outer := gra{"b": [...]parser.Term{x, seq{y, c}, c}[vsym.Choose("outer b", 3)], "c": leaf("outer c")}
	use := func() parser.Term { return sco{Term: seq{parser.Opt(b), c}, Grammar: inner} }
	switch vsym.Choose("use", 5) {
	case 0:
		outer["a"] = seq{use(), parser.Opt(b)}
	case 1:
		outer["a"] = seq{b, parser.Any(use()), c}
	case 2:
		outer["a"] = one{sco{Term: b, Grammar: inner}, b}
	case 3:
		outer["a"] = sco{Term: b, Grammar: inner}
	case 4:
		outer["a"] = seq{sco{Term: named("m", b), Grammar: inner}, sco{Term: b, Grammar: gra{"c": z}}, b}
	}
	h.CheckParse(outer.Compile(nil), outer, "a", h.Text("src", h.Pick(4, 5), "xyz"), "nested grammar")
}

// Three levels, each defining some of b, c and d.
// bounds: every subset of {b,c} on each of the two inner levels, three bodies each; text <=4 bytes over {x,y,z}.
func H_C23_three() {
	pick := func(l string) gra {
		g := gra{}
		switch vsym.Choose(l+" b", 4) {
		case 1:
			g["b"] = seq{c, parser.Opt(d)}
		case 2:
			g["b"] = c
		case 3:
			g["b"] = seq{x, c}
		}
		switch vsym.Choose(l+" c", 3) {
		case 1:
			g["c"] = d
		case 2:
			g["c"] = seq{z, parser.Opt(d)}
		}
		g["e"] = b
		return g
	}
	mid, in := pick("mid"), pick("in")
	if vsym.Bool("d inside") {
		in["d"] = seq{y, z}
	}
	nested := sco{Term: seq{parser.Opt(parser.Rule("e")), b}, Grammar: in}
	g := gra{"a": sco{Term: [...]parser.Term{nested, seq{b, nested}, seq{nested, parser.Rule("e")}}[vsym.Choose("use", 3)], Grammar: mid}, "b": x, "c": d, "d": y}
	h.CheckParse(g.Compile(nil), g, "a", h.Text("src", h.Pick(4, 5), "xyz"), "nested grammar")
}

// Recursion through nested grammars: outer rules used inside that contain the nested term themselves.
// bounds: seven shapes; text <=5 bytes over {x,y,z} (6 thorough).
func H_C23_recursive() {
	g := gra{}
	switch vsym.Choose("shape", 7) {
	case 0:
		g["a"] = one{seq{x, sco{Term: b, Grammar: gra{"b": a}}}, y}
	case 1:
		g["a"] = one{seq{x, sco{Term: seq{b, c}, Grammar: gra{"b": one{a, z}, "c": b}}}, y}
	case 2:
		g["a"] = seq{x, parser.Opt(sco{Term: b, Grammar: gra{"b": seq{y, parser.Opt(a)}, "x": z}}), parser.Opt(z)}
	case 3:
		g["a"] = sco{Term: parser.Delim{Term: b, Sep: c}, Grammar: gra{"b": one{seq{x, parser.Opt(b)}, z}}}
		g["b"], g["c"] = z, y
	case 4:
		g["a"] = seq{parser.Any(b), sco{Term: a, Grammar: gra{"a": one{seq{x, a, y}, b}, "b": z}}, b}
		g["b"] = one{x, y}
	case 5:
		g["a"] = sco{Term: sco{Term: b, Grammar: gra{"b": c}}, Grammar: gra{"c": one{seq{x, d}, y}, "d": a}}
	case 6:
		g["a"] = one{seq{x, parser.LookAhead{Term: sco{Term: b, Grammar: gra{"b": seq{parser.Opt(a), z}}}}, parser.Opt(a)}, z}
	}
	h.CheckParse(g.Compile(nil), g, "a", h.Text("src", h.Pick(5, 6), "xyz"), "nested grammar")
}

// Stacks and wrapping patterns inside, outside and on both levels.
// bounds: stacks of two layers of three shapes; wrapping pattern on neither, either or both of the levels; text <=4 bytes over {x,y,z,space,dash}.
func H_C23_stack() {
	lay := func(l string) parser.Term {
		return [...]parser.Term{parser.Delim{Term: at, Sep: y}, parser.Delim{Term: named("t", at), Sep: y, Assoc: parser.LeftToRight}, seq{parser.Any(y), at}}[vsym.Choose(l, 3)]
	}
	stack := func(l string) parser.Term { return parser.Stack{lay(l), one{x, seq{z, at, z}}} }
	inner, g := gra{"b": x}, gra{"b": x}
	switch vsym.Choose("levels", 3) {
	case 0:
		inner["b"] = stack("in")
	case 1:
		g["b"] = stack("out")
		inner["c"] = seq{x, parser.Opt(b)}
		delete(inner, "b")
	case 2:
		inner["b"], g["b"] = stack("in"), stack("out")
	}
	switch vsym.Choose("wrap", 4) {
	case 1:
		g[parser.WrapRE] = parser.RE(` *()`)
	case 2:
		inner[parser.WrapRE] = parser.RE(`()-*`)
	case 3:
		g[parser.WrapRE], inner[parser.WrapRE] = parser.RE(` *()`), parser.RE(`()-*`)
	}
	if g["c"] = z; inner["c"] == nil {
		inner["d"] = y
	}
	g["a"] = seq{sco{Term: seq{b, parser.Opt(c)}, Grammar: inner}, parser.Opt(b)}
	h.CheckParse(g.Compile(nil), g, "a", h.Text("src", h.Pick(4, 5), "xyz -"), "nested grammar")
}

// A nested grammar in a layer of a stack: the current rule is still the next layer.
// bounds: five stacks; text <=5 bytes over {x,y,z,+} (6 thorough).
func H_C23_layer() {
	del := parser.Delim{Term: at, Sep: b, Assoc: parser.LeftToRight}
	st := [...]parser.Stack{
		{sco{Term: del, Grammar: gra{"b": y}}, x},
		{sco{Term: seq{parser.Any(b), at}, Grammar: gra{"b": one{y, c}, "c": z}}, one{x, seq{z, at, z}}},
		{del, sco{Term: one{b, seq{z, at, z}}, Grammar: gra{"b": x}}},
		{sco{Term: sco{Term: seq{at, parser.Opt(seq{b, at})}, Grammar: gra{"b": c}}, Grammar: gra{"c": y}}, one{x, sco{Term: seq{b, b}, Grammar: gra{"b": z}}}},
		{seq{at, parser.Any(sco{Term: seq{b, at}, Grammar: gra{"b": y}})}, sco{Term: x, Grammar: gra{"b": y}}},
	}[vsym.Choose("stack", 5)]
	g := gra{"a": st, "b": parser.S("+")}
	h.CheckParse(g.Compile(nil), g, "a", h.Text("src", h.Pick(4, 6), "xyz+"), "nested grammar")
}

// Terminals that are exempt from wrapping: a nested grammar has the exemptions of the enclosing one unless it has a wrapping pattern of its own.
// bounds: exempt literals and patterns on neither, either or both of two or three levels; nested grammars of one to three rules, or of a stack;
// text <=4 bytes over {x,y,space,dash} (5 thorough).
func H_C23_exempt() {
	wrap := func(re string) parser.Term {
		return [...]parser.Term{nil, parser.RE(re), one{x, parser.RE(re)}, one{parser.RE("y+"), x, parser.RE(re)}}[vsym.Choose("wrap", 4)]
	}
	inner, g := gra{"b": one{x, parser.RE("y+")}}, gra{}
	if vsym.Bool("more") {
		inner["c"], inner["d"] = seq{y, b}, c
	}
	var use parser.Term = sco{Term: seq{b, parser.Opt(b)}, Grammar: inner}
	switch vsym.Choose("use", 4) {
	case 1:
		inner["b"] = parser.Stack{parser.Delim{Term: at, Sep: y}, one{x, seq{y, x}}}
	case 2:
		use = sco{Term: seq{use, parser.Opt(b)}, Grammar: gra{"b": x, "d": y}}
	case 3:
		use = sco{Term: seq{y, parser.Any(b)}, Grammar: inner}
	}
	if w := wrap(` *()`); w != nil {
		g[parser.WrapRE] = w
	}
	if w := wrap(`()-*`); w != nil {
		inner[parser.WrapRE] = w
	}
	g["a"] = seq{x, use, parser.Opt(y)}
	h.CheckParse(g.Compile(nil), g, "a", h.Text("src", h.Pick(4, 5), "xy -"), "nested grammar")
}
