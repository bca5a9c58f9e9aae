package c12

import (
	"regexp"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hg"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// body compiles a rule body and compares the outcome with what the syntax reference says.
func body(s string) {
	text := "a -> " + s + "; b -> \"y\";"
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	want, ok := hg.Read(text)
	if !ok {
		vsym.Cover("refused")
		vsym.Assert(err != nil, "accepts an ill-formed rule")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(err == nil, "refuses a well-formed rule")
	hw.SameGrammar(hw.StripAll(p.Grammar()), hg.Unstack(want), "term structure")
}

// Sequences, choices, groups and simple repetitions.
// bounds: every text of up to 5 bytes (6 thorough) over {b ( ) | * ? + space}.
func H_C12_ops() { body(h.Text("s", h.Pick(5, 6), "b()|*?+ ")) }

// Delimited repetitions.
// bounds: b and every text of up to 5 bytes (6 thorough) over {b : , < > ? (}.
func H_C12_delims() { body("b" + h.Text("s", h.Pick(5, 6), "b:,<>?(")) }

// Bounded repetitions.
// bounds: b{ and every text of up to 5 bytes over {0 1 2 9 , } space b *}.
func H_C12_bounds() { body("b{" + h.Text("s", 5, "0129,} b*")) }

// Names.
// bounds: every text of up to 6 bytes over {b n m = ( ) | space}.
func H_C12_names() { body(h.Text("s", h.Pick(5, 6), "bnm=()| ")) }

// Back-references, external references and lookaheads.
// bounds: each of five beginnings and every text of up to 4 bytes (5 thorough) over {b % = " ? ) ( n}.
func H_C12_refs() {
	s := [...]string{"%", "%n", "(?=", "b:%", "n=%"}[vsym.Choose("start", 5)]
	body(s + h.Text("s", h.Pick(4, 5), "b%=\"?)(n"))
}

// Stacks.
// bounds: every text of up to 5 bytes (6 thorough) over {b > | ( ) :}.
func H_C12_stacks() { body(h.Text("s", h.Pick(5, 6), "b>|():")) }

// Generated terms, written with the parentheses they need, nested deeper than the texts above.
// bounds: terms of up to 3 operators (4 thorough) of sequence, choice, quantifier, lookahead, name and delimiter around
// literals of one byte over {x > ( :}, a rule, a back-reference with default, an external reference and ().
func H_C12_generated() {
	g := h.Gen{Ops: "soqlnd", Lit: "x>(:", Names: []string{"n", "m"}, Quants: [][2]int{{0, 1}, {2, 3}, {0, 4}},
		Leaves: []parser.Term{parser.Rule("b"), parser.REF{Ident: "n", Default: parser.S("q")}},
		Delims: []parser.Delim{{}, {Assoc: parser.LeftToRight, CanStartWithSep: true}, {Assoc: parser.RightToLeft, CanEndWithSep: true}}}
	if vsym.Thorough() {
		g.Leaves = append(g.Leaves, parser.ExtRef("e"), parser.Seq{})
	}
	n := vsym.Choose("ops", 4)
	if n == 3 && !vsym.Thorough() {
		g.Leaves, g.Lit, g.Quants, g.Names = g.Leaves[:1], ">", g.Quants[1:2], g.Names[:1]
	}
	t := g.Term(n)
	s := h.Print(t, 0)
	body(s)
	if got, ok := hg.Read("a -> " + s + "; b -> 'y';"); ok {
		hw.SameTerm(got["a"], t, "harness: reader")
	}
}

// tokens of a grammar that uses every construct; an underscore stands for a gap that needs a blank.
var tokens = []string{
	"a", "->", "n", "=", "b", "{", "1", ",", "2", "}", "|", "(", "c", "<:", ",", `"x y"`, ",", ")", "*", "c", "?", ">",
	"(?=", "c", ")", "%", "n", "=", `'z'`, "%%", "e", "@", ":>", "%!", "M", "(", "c", ",", "b", ")", ";",
	".macro", "_", "M", "(", "p", ",", "q", ")", "{", "p", ":", "q", "}",
	"b", "->", "c", "(", ")", "{", "c", "->", "`u`", ";", "}", ";", "c", "->", `\d`, ";",
}

// Layout between any two tokens makes no difference.
// bounds: a grammar of 70 tokens, up to 2 characters (3 thorough) over {blank, newline, carriage return, tab} between
// any two tokens or around all of them, or one of these between all tokens.
func H_C12_layout() {
	gap := h.Text("layout", h.Pick(2, 3), " \n\r\t")
	all := vsym.Bool("everywhere")
	at := -1
	if !all {
		at = vsym.Choose("at", len(tokens)+1)
	}
	text := ""
	for i, tok := range tokens {
		if all || i == at {
			text += gap
		}
		if tok == "_" {
			tok = " "
		}
		if i > 0 && word(tok) && word(tokens[i-1]) {
			text += " "
		}
		text += tok
	}
	if all || at == len(tokens) {
		text += gap
	}
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	vsym.Assert(err == nil, "refuses a grammar because of its layout")
	hw.SameGrammar(hw.StripAll(p.Grammar()), vsym.Memo("layout", func(string) any {
		return hg.Unstack(parser.Grammar{
			"a": parser.Stack{
				parser.Oneof{
					parser.Quant{Term: parser.Named{Name: "n", Term: parser.Rule("b")}, Min: 1, Max: 2},
					parser.Seq{
						parser.Quant{Term: parser.Delim{Term: parser.Rule("c"), Sep: parser.S("x y"), Assoc: parser.RightToLeft, CanStartWithSep: true, CanEndWithSep: true}},
						parser.Opt(parser.Rule("c")),
					},
				},
				parser.Seq{
					parser.LookAhead{Term: parser.Rule("c")},
					parser.REF{Ident: "n", Default: parser.S("z")},
					parser.ExtRef("e"),
					parser.Delim{Term: parser.At, Sep: parser.Delim{Term: parser.Rule("c"), Sep: parser.Rule("b")}, Assoc: parser.LeftToRight},
				},
			},
			"b": parser.ScopedGrammar{Term: parser.Seq{parser.Rule("c"), parser.Seq{}}, Grammar: parser.Grammar{"c": parser.S("u")}},
			"c": parser.RE(`\d`),
		})
	}).(parser.Grammar), "with layout")
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

func word(s string) bool {
	return s[0] >= 'a' && s[0] <= 'z' || digit(s[0]) || s[0] >= 'A' && s[0] <= 'Z'
}

// Comments: where one ends, and that nothing is left of it.
// bounds: every text of up to 6 bytes (8 thorough) over {/ * newline blank} before, between, or after two rules, at the top or in a
// nested grammar.
func H_C12_comments() {
	s := h.Text("s", h.Pick(6, 8), "/* \n")
	ok := comments(s)
	text := ""
	switch vsym.Choose("place", 4) {
	case 0:
		text = s + "\nb -> \"y\"; c -> \"z\";"
	case 1:
		text = "b -> \"y\";" + s + "\n\nc -> \"z\";"
	case 2:
		text = "b -> \"y\"; c -> \"z\";" + s
	case 3:
		text = "a -> b {" + s + "\nb -> \"y\"; c -> \"z\";" + s + "\n};"
	}
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	vsym.Assert((err == nil) == ok, "comments")
	if !ok {
		vsym.Cover("refused")
		return
	}
	vsym.Cover("accepted")
	want := parser.Grammar{"b": parser.S("y"), "c": parser.S("z")}
	if text[0] == 'a' {
		want = parser.Grammar{"a": parser.ScopedGrammar{Term: parser.Rule("b"), Grammar: want}}
	}
	hw.SameGrammar(hw.StripAll(p.Grammar()), want, "with comments")
}

// comments tells whether s is a sequence of comments and blanks. The last one may be cut off by the end of a line only.
func comments(s string) bool {
	for i := 0; i < len(s); {
		switch {
		case s[i] == ' ' || s[i] == '\n':
			i++
		case i+1 < len(s) && s[i] == '/' && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case i+1 < len(s) && s[i] == '/' && s[i+1] == '*':
			j := i + 2
			for ; j+1 < len(s) && !(s[j] == '*' && s[j+1] == '/'); j++ {
			}
			if j+1 >= len(s) {
				return false
			}
			i = j + 2
		default:
			return false
		}
	}
	return true
}

// The text of a comment is arbitrary.
// bounds: up to 3 bytes (4 thorough) of any ASCII character, in either kind of comment.
func H_C12_commentText() {
	s := vsym.Bytes("s", 1+vsym.Choose("len", h.Pick(3, 4)), "")
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 128)
	}
	text := ""
	if vsym.Bool("block") {
		for i := 0; i+1 < len(s); i++ {
			vsym.Assume(!(s[i] == '*' && s[i+1] == '/'))
		}
		text = "/*" + s + "*/b -> \"y\";"
	} else {
		for i := 0; i < len(s); i++ {
			vsym.Assume(s[i] != '\n')
		}
		text = "//" + s + "\nb -> \"y\";"
	}
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	vsym.Assert(err == nil, "refuses a comment")
	hw.SameGrammar(hw.StripAll(p.Grammar()), parser.Grammar{"b": parser.S("y")}, "with a comment")
}

// Nested grammars belong to the term they follow: the whole of it, and one layer of a stack.
// bounds: eight texts with a symbolic literal, two symbolic characters of layout, and generated terms of up to 1 operator.
func H_C12_nested() {
	g := h.Gen{Ops: "soqnd", Lit: "x}{", Names: []string{"n"}, Quants: [][2]int{{0, 1}, {0, 2}},
		Leaves: []parser.Term{parser.Rule("b")}, Delims: []parser.Delim{{}, {CanEndWithSep: true}}}
	t := g.UpTo(1)
	s := h.Print(t, 1)
	in := parser.Grammar{"b": parser.S("i")}
	sg := func(t parser.Term, g parser.Grammar) parser.Term { return parser.ScopedGrammar{Term: t, Grammar: g} }
	B := "{b -> 'i';}"
	b := parser.Rule("b")
	text := ""
	var want parser.Term
	switch vsym.Choose("shape", 8) {
	case 0:
		text, want = s+B, sg(t, in)
	case 1:
		text, want = "b | "+s+B, sg(h.Flat(parser.Oneof{b}, t), in)
	case 2:
		text, want = "("+s+B+") b", parser.Seq{sg(t, in), b}
	case 3:
		text, want = "b > "+s+B+" > b", parser.Stack{b, sg(t, in), b}
	case 4:
		text, want = s+B+" > b", parser.Stack{sg(t, in), b}
	case 5:
		text, want = s+B+" > b {b -> 'j'; c -> b;}", parser.Stack{sg(t, in), sg(b, parser.Grammar{"b": parser.S("j"), "c": b})}
	case 6:
		text, want = "b {b -> "+s+B+"; c -> 'z';}", sg(b, parser.Grammar{"b": sg(t, in), "c": parser.S("z")})
	case 7:
		text, want = "n=("+s+B+")* b", parser.Seq{parser.Any(parser.Named{Name: "n", Term: sg(t, in)}), b}
	}
	text = "a -> " + text + "; b -> 'y';"
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	vsym.Assert(err == nil, "refuses a nested grammar")
	hw.SameGrammar(hw.StripAll(p.Grammar()), hg.Unstack(parser.Grammar{"a": want, "b": parser.S("y")}), "nested")
}

// Patterns in braces: where one ends, blanks that are dropped, and \_ for a blank.
// bounds: every text of up to 5 bytes (6 thorough) over {x \ _ blank { } 1 ,} and up to 4 over {x [ ] { } \ ^ ( )}.
func H_C12_pattern() {
	s := ""
	if vsym.Bool("classes") {
		s = h.Text("s", h.Pick(4, 5), "x[]{}\\^()")
	} else {
		s = h.Text("s", h.Pick(5, 6), "x\\_ {}1,")
	}
	text := "a -> /{" + s + "};"
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	want, ok := pattern(s)
	vsym.Assert((err == nil) == ok, "which patterns are accepted")
	if ok {
		vsym.Cover("accepted")
		hw.SameGrammar(hw.StripAll(p.Grammar()), parser.Grammar{"a": parser.RE(want)}, "pattern")
	}
}

// pattern decodes a pattern in braces.
func pattern(s string) (string, bool) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
			if i == len(s) {
				return "", false // escapes the closing brace
			}
		case '{':
			j := i + 1
			for j < len(s) && (digit(s[j]) || s[j] == ',') {
				j++
			}
			if j < len(s) && s[j] == '}' && repeat(s[i+1:j]) {
				i = j
			}
		case '}':
			for ; i < len(s); i++ {
				vsym.Assume(s[i] != '{') // a quantifier after the pattern
			}
			return "", false
		case '[':
			if n := hg.Class(s[i:]); n > 0 {
				i += n - 1
			}
		}
	}
	dense, out := "", ""
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			dense += s[i : i+1]
		}
	}
	for i := 0; i < len(dense); i++ {
		if dense[i] == '\\' && i+1 < len(dense) {
			i++
			if dense[i] == '_' {
				out += " "
			} else {
				out += dense[i-1 : i+1]
			}
		} else {
			out += dense[i : i+1]
		}
	}
	_, err := regexp.Compile(out)
	return out, err == nil
}

func repeat(s string) bool {
	// \d+(,\d*)? | ,\d+
	i := 0
	for i < len(s) && digit(s[i]) {
		i++
	}
	j := i
	if j < len(s) && s[j] == ',' {
		j++
	}
	k := j
	for k < len(s) && digit(s[k]) {
		k++
	}
	return k == len(s) && (i > 0 || j > i && k > j)
}

// Patterns without braces, and where they end.
// bounds: every text of up to 4 bytes (5 thorough) over {b \ d . $ [ ] ^ + ? { 1 , } *}; and \d{ followed by up to 4 over {1 2 , } ? b}.
func H_C12_bare() {
	if vsym.Bool("bounds") {
		body("\\d{" + h.Text("s", 4, "12,}?b"))
	} else {
		body(h.Text("s", h.Pick(4, 5), "b\\d.$[]^+?{1,}*"))
	}
}

// Names of rules.
// bounds: every text of up to 4 bytes (5 thorough) over {a Z _ 0 . - @ blank}.
func H_C12_idents() {
	s := h.Text("s", h.Pick(4, 5), "aZ_0.-@ ")
	text := s + "-> 'y';"
	vsym.Note(func() string { return "text: " + text })
	i, j := 0, len(s)
	for i < j && s[i] == ' ' {
		i++
	}
	for i < j && s[j-1] == ' ' {
		j--
	}
	name := s[i:j]
	k := 0
	if k < len(name) && name[k] == '.' {
		k++
	}
	ok := k < len(name) && !digit(name[k])
	for ; k < len(name); k++ {
		ok = ok && (name[k] == '_' || word(name[k:]))
	}
	p, err := wbnf.Compile(text, nil)
	vsym.Assert((err == nil) == ok, "which names are accepted")
	if ok {
		vsym.Cover("accepted")
		hw.SameGrammar(hw.StripAll(p.Grammar()), parser.Grammar{parser.Rule(name): parser.S("y")}, "names")
	}
}
