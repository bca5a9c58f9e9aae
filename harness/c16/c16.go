package c16

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hg"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/wbnf"
)

// decide compiles a text and asserts that it is refused exactly if it breaks a rule.
func decide(text string) {
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	want, ok := hg.Read(text)
	if !ok {
		vsym.Cover("ill-formed")
		vsym.Assert(err != nil, "accepts an ill-formed grammar")
		return
	}
	if hg.LeftRecursive(want) {
		vsym.Cover("left-recursive")
		vsym.Assert(err != nil, "accepts a left-recursive grammar")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(err == nil, "refuses a well-formed grammar")
	hw.SameGrammar(hw.StripAll(p.Grammar()), hg.Unstack(want), "grammar")
}

func name(what, alphabet string) string { return vsym.Bytes(what, 1, alphabet) }

// Rules defined twice and references to rules that do not exist.
// bounds: three rules, each of any of three names and referring to any of four, directly or after a literal.
func H_C16_rules() {
	s := ""
	lit := [...]string{"", "'x' "}[vsym.Choose("literal", 2)]
	for i := 0; i < 3; i++ {
		s += name("rule", "abc") + " -> " + lit + name("reference", "abcd") + " | 'y'; "
	}
	decide(s)
}

// The same with nested grammars: what is inside is unknown outside, and inside names may be reused.
// bounds: two rules outside, two in a nested grammar, one in a second nested grammar within or beside the first, each of
// any of two or three names; a reference in each.
func H_C16_nested() {
	r := func() string { return "'x' " + name("reference", "abc") }
	inner := name("rule", "ab") + " -> " + r() + "; " + name("rule", "bc") + " -> 'y';"
	deep := "{ " + name("rule", "bc") + " -> " + r() + "; }"
	s := ""
	switch vsym.Choose("shape", 3) {
	case 0:
		s = "a -> " + r() + " { " + inner + " }; b -> " + r() + ";"
	case 1:
		s = "a -> " + r() + " { " + inner + " d -> " + r() + deep + "; };"
	case 2:
		s = "a -> " + r() + " { " + inner + " } > " + r() + deep + ";"
	}
	decide(s)
}

// Names of terms: unique among the items of a sequence, and never those of a rule.
// bounds: six shapes with three names of three letters, one of them a rule.
func H_C16_siblings() {
	n := func() string { return name("name", "nmb") + "='x'" }
	x, y, z := n(), n(), n()
	s := [...]string{
		x + " " + y + " " + z, x + " (" + y + ") " + z, x + " | " + y + " " + z, x + "? " + y + "* " + z + "{2,}",
		x + ":',' " + y + " | " + z, x + ":" + y + " " + z,
		x + " b:" + y + "? (?=" + z + ")", "%n (" + x + " " + y + ")* " + z, "b { c -> " + x + " " + y + "; } > " + z, "b { n -> 'x'; } > " + x + " " + y,
	}[vsym.Choose("shape", 10)]
	decide("a -> " + s + "; b -> 'y';")
}

// Macros: names, parameters, the number of arguments, and macros that call each other.
// bounds: eight shapes, two to four symbolic names over two to four letters.
func H_C16_macros() {
	call := func(args string) string { return "%!" + name("call", "MNb") + "(" + args + ")" }
	ref := func() string { return name("reference", "bpqM") }
	s := ""
	switch vsym.Choose("shape", 9) {
	case 0:
		args := [...]string{"", "b", "b,b", "b,b,b", ",", "b,", ",b"}[vsym.Choose("arguments", 7)]
		params := [...]string{"", "p", "p,q", "p,", ",p"}[vsym.Choose("parameters", 5)]
		s = ".macro M(" + params + ") { 'x' " + ref() + " } a -> " + call(args) + ";"
	case 1:
		s = ".macro " + name("macro", "MNb") + "(" + name("parameter", "pqb") + ") { 'x' " + ref() + " } .macro N(" + name("parameter", "pMN") + ") { " + ref() + " } a -> " + call("b") + ";"
	case 2:
		s = ".macro M(p) { p:',' " + call("p") + " } .macro N(p) { 'x' " + call(ref()) + " } a -> " + call("b") + ";"
	case 3:
		s = ".macro M(p) { p? " + call("b") + " } .macro N(p) { 'x' p } a -> 'x' " + call(call(ref())) + ";"
	case 4:
		s = ".macro M(p) { p 'x' } a -> b { " + name("rule", "cpM") + " -> 'x' " + ref() + "; d -> " + call("b") + "; };"
	case 5:
		s = "a -> 'x' { .macro " + name("macro", "MNa") + "(p) { 'y' p " + ref() + " } c -> " + call("b") + "; }; d -> " + call("b") + ";"
	case 6:
		s = ".macro M(p) { 'x' p { " + name("rule", "pcb") + " -> " + ref() + "; } } a -> " + call("b") + ";"
	case 7:
		s = ".macro M(p) { " + name("name", "npqb") + "=p } a -> " + call("'x'") + " " + ref() + ";"
	case 8:
		s = ".macro M(p) { p > 'x' } a -> " + [...]string{"", "'x' ", "'x' > ", "n="}[vsym.Choose("before", 4)] + "%!M(b);"
	}
	decide(s + " b -> 'z';")
}

// Patterns in every place, valid and not.
// bounds: two symbolic characters over {x ( ) [ * \ ?} in a pattern in one of seven places.
func H_C16_patterns() {
	re := "/{x" + vsym.Bytes("pattern", 2, "x()[*\\?") + "y\\\\}"
	s := [...]string{
		"a -> " + re + ";", "a -> n=" + re + "* 'x';", "a -> 'x':" + re + ";", "a -> 'x' > " + re + ";", "a -> 'x' { c -> (?=" + re + ") 'x'; };",
		".macro M(p) { p " + re + " } a -> 'x';", ".macro M(p) { p } a -> %!M(" + re + ");",
	}[vsym.Choose("place", 7)]
	decide(s)
}

// Bounds of quantifiers in every place.
// bounds: minimum and maximum of one or two symbolic digits or none, in one of six places.
func H_C16_bounds() {
	num := func(what string) string { return vsym.Bytes(what, vsym.Choose(what+" digits", 3), "0129") }
	q := "{" + num("minimum") + "," + num("maximum") + "}"
	s := [...]string{
		"a -> 'x'" + q + ";", "a -> n=('x')" + q + "? 'y';", "a -> 'x':('y'" + q + ");", "a -> 'x' > 'y' @" + q + ";", "a -> 'x' { c -> 'x'" + q + "; };",
		".macro M(p) { p" + q + " 'y' } a -> %!M('x');",
	}[vsym.Choose("place", 6)]
	decide(s)
}

// tokens of a grammar that uses most constructs; those in upper and lower case letters are names.
var tokens = []string{
	"a", "->", "n", "=", "b", "|", "'x'", "c", ">", "'y'", "%", "n", "=", "'z'", "%%", "e", "@", ":", "%!", "M", "(", "c", ",", "b", ")", ";",
	".macro", " ", "M", "(", "p", ",", "q", ")", "{", "p", ":", "q", "}",
	"b", "->", "'x'", "c", "{", "c", "->", "`u`", "d", ";", "d", "->", "m", "=", "'v'", "b", ";", "}", ";", "c", "->", "'w'", ";",
}

// A grammar that uses most constructs in which two arbitrary names are replaced.
// bounds: any two of 24 names, each replaced by any of three letters (six thorough).
func H_C16_renamed() {
	var names []int
	for i, t := range tokens {
		if len(t) == 1 && (t[0] >= 'a' && t[0] <= 'z' || t[0] == 'M') {
			names = append(names, i)
		}
	}
	j := 1 + vsym.Choose("second", len(names)-1)
	i := vsym.Choose("first", j)
	alphabet := "acn"
	if vsym.Thorough() {
		alphabet = "abcnpM"
	}
	s := ""
	for k, t := range tokens {
		if k == names[i] || k == names[j] {
			t = name("name", alphabet)
		}
		if k > 0 && len(s) > 0 && t[0] >= 'A' && s[len(s)-1] >= 'A' {
			s += " "
		}
		s += t
	}
	decide(s)
}

// Stacks in every place.
// bounds: seven places for a term that is or is not a stack, in or out of parentheses; terms of a stack of up to three layers.
func H_C16_stacks() {
	t := [...]string{"'x' > 'y'", "'x'", "('x' > 'y')", "(('x'))", "@ '+' > 'x'", "'x' > ('y' > 'z')", "'x' > 'y' {c -> 'x' > 'y';} > 'z'"}[vsym.Choose("term", 7)]
	s := [...]string{
		t, "'z' " + t, "(" + t + ") 'z'", "'z' | (" + t + ")", "(" + t + ")*", "'z':(" + t + ")", "n=(" + t + ")", "(?=" + t + ") 'z'", t + " {d -> 'y';}", "'z' {d -> " + t + ";}", "'z' {e -> 'z';} " + t,
	}[vsym.Choose("place", 11)]
	decide("a -> " + s + ";")
}

// Generated grammars of any structure are accepted unless they are left-recursive.
// bounds: a rule of up to 2 operators (3 thorough) of sequence, choice, quantifier, lookahead, name and delimiter over
// literals, three rules and a back-reference.
func H_C16_accepted() {
	decide("a -> " + h.Print(gen().UpTo(h.Pick(2, 3)), 0) + "; b -> 'y' a?; c -> (b | 'z')*;")
}
