package c14

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hg"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// same asserts that a text with macros compiles to the same grammar as one without.
func same(text, plain string) {
	vsym.Note(func() string { return "with macros: " + text + "\nwithout: " + plain })
	want, ok := hg.Read(plain)
	p, err := wbnf.Compile(text, nil)
	if !ok || hg.LeftRecursive(want) {
		vsym.Cover("ill-formed")
		vsym.Assert(err != nil, "accepts an ill-formed expansion")
		return
	}
	vsym.Assert(err == nil, "refuses a macro")
	vsym.Cover("accepted")
	hw.SameGrammar(hw.StripAll(p.Grammar()), hg.Unstack(want), "expansion")
}

// subst replaces rules p and q.
func subst(t, p, q parser.Term) parser.Term {
	list := func(ts []parser.Term) []parser.Term {
		var r []parser.Term
		for _, x := range ts {
			r = append(r, subst(x, p, q))
		}
		return r
	}
	switch t := t.(type) {
	case parser.Rule:
		if t == "p" {
			return p
		}
		if t == "q" {
			return q
		}
	case parser.Seq:
		return parser.Seq(list(t))
	case parser.Oneof:
		return parser.Oneof(list(t))
	case parser.Stack:
		return parser.Stack(list(t))
	case parser.Delim:
		t.Term, t.Sep = subst(t.Term, p, q), subst(t.Sep, p, q)
		return t
	case parser.Quant:
		t.Term = subst(t.Term, p, q)
		return t
	case parser.Named:
		t.Term = subst(t.Term, p, q)
		return t
	case parser.LookAhead:
		t.Term = subst(t.Term, p, q)
		return t
	case parser.ScopedGrammar:
		g := parser.Grammar{}
		for n, x := range t.Grammar {
			g[n] = subst(x, p, q)
		}
		t.Term, t.Grammar = subst(t.Term, p, q), g
		return t
	}
	return t
}

// paren is a leaf that is printed as t in parentheses.
func paren(t parser.Term) parser.Term { return parser.Rule("(" + h.Print(t, 0) + ")") }

const rest = " b -> 'y'; c -> 'z';"

// Every body: the parameters in every place of it.
// bounds: bodies of up to 2 operators (3 thorough) of sequence, choice, quantifier, lookahead, name and delimiter over
// two parameters, a rule and a symbolic literal; two arguments of one byte or compound.
func H_C14_body() {
	g := h.Gen{Ops: "soqlnd", Lit: "pqb", Names: []string{"n"}, Quants: [][2]int{{0, 1}, {2, 3}},
		Leaves: []parser.Term{parser.Rule("p"), parser.Rule("q"), parser.Rule("b")},
		Delims: []parser.Delim{{}, {Assoc: parser.LeftToRight, CanEndWithSep: true}}}
	body := g.UpTo(h.Pick(2, 3))
	var p, q parser.Term = parser.Seq{parser.Rule("b"), parser.S("r")}, parser.S(vsym.Bytes("q", 1, "pqr"))
	if vsym.Bool("choice") {
		p = parser.Oneof{parser.Rule("b"), parser.Named{Name: "m", Term: parser.Rule("c")}}
	}
	same(".macro M(p, q) { "+h.Print(body, 0)+" } a -> 'x' %!M("+h.Print(p, 0)+", "+h.Print(q, 0)+");"+rest,
		"a -> 'x' "+h.Print(subst(body, paren(p), paren(q)), 3)+";"+rest)
}

// Every argument.
// bounds: arguments of up to 1 operator (2 thorough) over a rule, a back-reference, a pattern and a symbolic literal; four bodies.
func H_C14_argument() {
	g := h.Gen{Ops: "soqlnd", Lit: "x,)", Names: []string{"n"}, Quants: [][2]int{{0, 1}, {2, 3}},
		Leaves: []parser.Term{parser.Rule("b"), parser.REF{Ident: "n", Default: parser.S("q")}, parser.RE("z+")},
		Delims: []parser.Delim{{}, {CanStartWithSep: true}}}
	arg := g.UpTo(h.Pick(1, 2))
	var p parser.Term = parser.Rule("p")
	body := [...]parser.Term{
		p, parser.Seq{p, parser.Delim{Term: p, Sep: p}}, parser.Any(parser.Oneof{parser.Named{Name: "m", Term: p}, p}),
		parser.ScopedGrammar{Term: parser.Rule("d"), Grammar: parser.Grammar{"d": parser.Seq{parser.S("x"), p}}},
	}[vsym.Choose("body", 4)]
	same(".macro M(p) { "+h.Print(body, 0)+" } a -> 'x' (%!M("+h.Print(arg, 0)+"));"+rest,
		"a -> 'x' "+h.Print(subst(body, paren(arg), nil), 3)+";"+rest)
}

// Every place of a call: all kinds of terms, layers of stacks, nested grammars, arguments and bodies of macros; the
// macro defined before, after or in an enclosing grammar.
// bounds: 17 places for one or two calls; three bodies; a symbolic literal as argument.
func H_C14_place() {
	arg := "'" + vsym.Bytes("argument", 1, "pxM") + "'"
	bodies := [...][2]string{{"(", " b)"}, {"(c:(", "))"}, {"(n=(", "))"}}[vsym.Choose("body", 3)]
	body := func(p string) string { return bodies[0] + p + bodies[1] }
	i := vsym.Choose("place", 17)
	var mac, plain string
	def := " .macro M(p) { " + body("p") + " } "
	place := func(call func(string) string) string {
		m := call(arg)
		return [...]string{
			"a -> " + m + ";", "a -> 'x' " + m + " 'y';", "a -> 'x' | " + m + ";", "a -> (" + m + ")*;", "a -> 'x':(" + m + ");", "a -> (" + m + "):>'x';", "a -> (?=" + m + ") 'x';",
			"a -> m=(" + m + ");", "a -> 'x' > " + m + ";", "a -> " + m + " > @;", "a -> " + m + " > " + call("('x' @)") + " > 'y';", "a -> " + m + " {d -> 'x';};",
			"a -> d {d -> " + m + ";};", "a -> d {d -> 'x' > " + m + " > 'y' {e -> " + m + ";};};", "a -> " + call(m) + ";", "a -> " + call("(b "+call(m)+")") + ";", "a -> " + m + " e -> " + m + "; e -> " + call("('x' e)") + ";",
		}[i]
	}
	mac = place(func(arg string) string { return "%!M(" + arg + ")" })
	k := vsym.Choose("definition", 3)
	switch k {
	case 0:
		mac = def + mac + rest
	case 1:
		mac = mac + def + rest
	case 2:
		mac = "z -> a { " + mac + rest + " }; " + def + rest
	}
	plain = place(body) + rest
	if k == 2 {
		plain = "z -> a { " + plain + " };" + rest
	}
	same(mac, plain)
}

// Macros that call each other, with their own parameters as arguments or with the same parameter names.
// bounds: three macros of two bodies each calling the next; symbolic parameter names over {p,q}.
func H_C14_chain() {
	p, q, r := vsym.Bytes("p", 1, "pq"), vsym.Bytes("q", 1, "pq"), vsym.Bytes("r", 1, "pq")
	fs := [][]func(string) string{
		{func(p string) string { return p + " " + p }, func(p string) string { return "'l':(" + p + ")" }},
		{func(p string) string { return "'m' | " + p }, func(p string) string { return "('m' " + p + ")?" }},
		{func(p string) string { return "(" + p + ")* 'n'" }, func(p string) string { return "k=(" + p + " 'n')" }},
	}
	f, g, k := fs[0][vsym.Choose("f", 2)], fs[1][vsym.Choose("g", 2)], fs[2][vsym.Choose("k", 2)]
	text := ".macro F(" + p + ") { " + f("%!G("+p+" 'f')") + " }\n.macro K(" + r + ") { " + k(r) + " }\n.macro G(" + q + ") { " + g("%!K('g' "+q+")") + " }\n"
	arg := "('y' | 'z')"
	same(text+"a -> 'x' (%!F("+arg+"));"+rest, "a -> 'x' ("+f("("+g("("+k("('g' ("+arg+" 'f'))")+")")+")")+");"+rest)
}

// Several parameters keep their order; arguments that are calls with the parameters swapped.
// bounds: one to three parameters, symbolic order of use.
func H_C14_order() {
	n := 1 + vsym.Choose("parameters", 3)
	names := []string{"p", "q", "r"}[:n]
	args := []string{"'1'", "('2' | b)", "'3'"}[:n]
	u := [3]int{vsym.Choose("first", n), vsym.Choose("second", n), vsym.Choose("third", n)}
	params, list := "", ""
	for i := range names {
		if i > 0 {
			params += ", "
			list += ", "
		}
		params += names[i]
		list += args[i]
	}
	swap := ""
	for i := range u[:n] {
		if i > 0 {
			swap += ", "
		}
		swap += names[u[i]]
	}
	body := func(x []string) string { return "'x' " + x[u[0]] + " " + x[u[1]] + " " + x[u[2]] }
	moved := make([]string, n)
	for i := range moved {
		moved[i] = args[u[i]]
	}
	same(".macro M("+params+") { "+body(names)+" } .macro N("+params+") { %!M("+swap+") } a -> ('0' %!M("+list+")) | (%!N("+list+"));"+rest,
		"a -> ('0' ("+body(args)+")) | ("+body(moved)+");"+rest)
}

// The same by behaviour: the parser of the text with the macro and that of the text without give the same trees.
// bounds: five pairs of texts; input <=5 bytes over {x,y,comma}.
func H_C14_parse() {
	pairs := [...][2]string{
		{".macro D(term, sep) { term (sep term)* } a -> %!D(b, ',');", "a -> b (',' b)*;"},
		{".macro D(term, sep) { term:sep } a -> %!D(%!D(b, ','), 'x');", "a -> (b:','):'x';"},
		{".macro P(t) { ',' t ',' | t } a -> %!P(b) 'x' > %!P(@ > ()) ;", ""},
		{".macro P(t) { ',' t | t } a -> @:'x' > %!P(b);", "a -> @:'x' > (',' b | b);"},
		{".macro R(t) { n=t %n t } a -> %!R(b);", "a -> n=b %n b;"},
		{".macro O(t) { t? } a -> (%!O(b) 'x')* %!O('x' %!O(b));", "a -> (b? 'x')* ('x' b?)?;"},
	}
	i := vsym.Choose("pair", len(pairs))
	if pairs[i][1] == "" {
		_, err := hw.Compile(pairs[i][0] + " b -> 'x' | 'y';")
		vsym.Assert(err != nil, "accepts an ill-formed expansion")
		return
	}
	with := hw.MustCompile(pairs[i][0] + " b -> 'x' | 'y';")
	without := hw.MustCompile(pairs[i][1] + " b -> 'x' | 'y';")
	s := h.Text("text", 5, "xy,")
	t1, err1 := with.Parse("a", parser.NewScanner(s))
	t2, err2 := without.Parse("a", parser.NewScanner(s))
	vsym.Assert((err1 == nil) == (err2 == nil), "one of the parsers fails")
	if err1 == nil {
		hw.SameTree(t1, t2, "trees")
	}
}
