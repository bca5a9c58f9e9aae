package c07

import (
	"regexp"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// A literal of arbitrary ASCII characters, matched against arbitrary ASCII text, alone or after other text.
// bounds: literal and text <=3 bytes (4 thorough), all 128 ASCII characters.
func H_C07_literal() {
	lit := vsym.Bytes("lit", vsym.Choose("litlen", h.Pick(4, 5)), ascii)
	src := vsym.Bytes("src", vsym.Choose("srclen", h.Pick(4, 5)), ascii)
	p := parser.Grammar{"a": parser.S(lit)}.Compile(nil)
	te, err := p.Parse("a", parser.NewScanner(src))
	if lit == src {
		vsym.Cover("whole")
		vsym.Assert(err == nil, "refuses its own text")
		s := te.(parser.Scanner)
		vsym.Assert(s.Offset() == 0 && s.String() == lit, "token")
		return
	}
	vsym.Assert(err != nil, "matches another text")
	u, left := err.(parser.UnconsumedInputError)
	vsym.Assert(left == h.HasPrefix(src, lit), "matches a text that does not start with the literal, or fails on one that does")
	if left {
		vsym.Cover("prefix")
		s := u.Result().(parser.Scanner)
		vsym.Assert(s.Offset() == 0 && s.String() == lit, "token of a prefix match")
		vsym.Assert(u.Residue().Offset() == len(lit), "consumes other than the literal")
	}
}

const ascii = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\x7f"

// Literals of characters beyond ASCII, on texts of the same and of other characters.
// bounds: up to 2 of 6 characters (2 to 4 bytes each) in the literal, up to 3 in the text.
func H_C07_unicode() {
	rs := []string{"é", "λ", "世", "😀", "è", "x"}
	pick := func(n int) (s string) {
		for i := 0; i < n; i++ {
			s += rs[vsym.Choose("rune", len(rs))]
		}
		return
	}
	lit := pick(1 + vsym.Choose("n", 2))
	src := pick(vsym.Choose("m", h.Pick(3, 4)))
	gr := parser.Grammar{"a": parser.Seq{parser.S(lit), parser.Opt(parser.RE("."))}}
	h.CheckParse(gr.Compile(nil), gr, "a", src, "literal")
}

var pats = []string{
	`x`, `x*`, `[xy]+`, `x(y)`, `(x)y`, `x(y)?`, `(x)?(y)`, `(x)|(y)`, `x|(y)`, `(x)(y)?`, `(?:x)(y*)x`, `((x)y)`, `x+?`, `x(y*?)`,
	`(x*)(y*)`, `[^x]`, `.`, `(?i)X`, `x{2}`, `x{1,2}(y)`, `()`, `(x|y)(x|y)`, `x$`, `^x`, `\bx`, `(x)\b`, `(?s).`, `(?:x|xy)(y?)`, ``,
}

// Every listed pattern (captures that do and do not take part, several captures, lazy and anchored forms), alone, in a
// sequence, in a repetition and named.
// bounds: 29 patterns; text <=5 bytes (6 thorough) over {x,y,newline}.
func H_C07_pattern() {
	re := parser.RE(pats[vsym.Choose("pattern", len(pats))])
	var t parser.Term = re
	switch vsym.Choose("ctx", 4) {
	case 1:
		t = parser.Seq{parser.S("x"), re, parser.Opt(parser.S("y"))}
	case 2:
		t = parser.Quant{Term: parser.Named{Name: "n", Term: re}, Max: 2}
	case 3:
		t = parser.Oneof{parser.Seq{re, parser.S("y")}, re}
	}
	gr := parser.Grammar{"a": t}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", h.Pick(5, 6), "xy\n"), "pattern")
}

// Patterns written as alternatives, classes and repetitions of symbolic characters.
// bounds: three symbolic characters over {x,y,.,*} in 8 shapes; text <=4 bytes (5 thorough) over {x,y,.,*}.
func H_C07_symbolicPattern() {
	const al = "xy.*"
	q := func(s string) string { return regexp.QuoteMeta(s) }
	a, b, c := q(vsym.Bytes("p", 1, al)), q(vsym.Bytes("q", 1, al)), q(vsym.Bytes("r", 1, al))
	var re string
	switch vsym.Choose("shape", 8) {
	case 0:
		re = a + b + c
	case 1:
		re = a + "|" + b + c
	case 2:
		re = a + "(" + b + ")" + c
	case 3:
		re = a + "*" + b
	case 4:
		re = a + "?(" + b + "|" + c + ")"
	case 5:
		re = "(?:" + a + b + ")*(" + c + ")?"
	case 6:
		re = a + "+(" + b + "*)"
	case 7:
		re = "(" + a + ")" + "|(" + b + ")|" + c
	}
	gr := parser.Grammar{"a": parser.Seq{parser.RE(re), parser.Opt(parser.S("x"))}}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", h.Pick(4, 5), al), "pattern")
}

var wraps = []string{`\s*()\s*`, `()\s*`, `[ ]*()`, `(?:\s|#)*()`, `<()>`, `(?:()-)`}

// Wrapping patterns around literals and patterns; with exempt terminals; text around the tokens never becomes part of them.
// bounds: 6 wrappers, with and without exemptions; 8 rules; text <=5 bytes (6 thorough) over {x,space,#,<,>}.
func H_C07_wrap() {
	w := parser.RE(wraps[vsym.Choose("wrap", len(wraps))])
	var wt parser.Term = w
	if k := vsym.Choose("exempt", 5); k > 0 {
		wt = [...]parser.Term{nil, parser.Oneof{parser.S("x"), w}, parser.Oneof{parser.RE("x+"), w}, parser.Oneof{parser.S("<"), parser.S("#"), w}, parser.Oneof{w}}[k]
	}
	t := [...]parser.Term{
		parser.S("x"),
		parser.RE("x+"),
		parser.Seq{parser.S("x"), parser.S("x")},
		parser.Seq{parser.RE("x(#?)"), parser.Opt(parser.S("<"))},
		parser.Some(parser.RE("x|#")),
		parser.Delim{Term: parser.S("x"), Sep: parser.S("#"), CanEndWithSep: true},
		parser.Seq{parser.S("#"), parser.RE("x+"), parser.Opt(parser.S("x"))},
		parser.Oneof{parser.RE("(x)x|(#)"), parser.RE("x|#")},
	}[vsym.Choose("rule", 8)]
	gr := parser.Grammar{"a": t, parser.WrapRE: wt}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", h.Pick(5, 6), "x #<>"), "wrapped")
}

// A wrapper whose text holds a dollar sign or backslash sequences, and terminals that do: the terminal is inserted as it is.
// bounds: 3 wrappers; literal and text of up to 2 bytes over {$,1,\,x}.
func H_C07_wrapText() {
	w := parser.RE([...]string{`\$?()`, `()\\?`, `\s*()`}[vsym.Choose("wrap", 3)])
	lit := vsym.Bytes("lit", 1+vsym.Choose("n", 2), `$1\x`)
	gr := parser.Grammar{"a": parser.S(lit), parser.WrapRE: w}
	h.CheckParse(gr.Compile(nil), gr, "a", h.Text("src", 3, `$1\x`), "wrapped")
}
