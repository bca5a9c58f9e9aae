package c13

import (
	"unicode/utf8"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

const hex = "0123456789abcdefABCDEF"

func hexVal(c byte) int {
	for i := 0; i < 16; i++ {
		if c == hex[i] || i >= 10 && c == hex[i+6] {
			return i
		}
	}
	return -1
}

// decode is the oracle: the denotation of the text between the quotes.
func decode(s string, quote byte) (string, bool) {
	r := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote == '`' {
			if c == '`' {
				i++ // doubled
			}
			r += s[i : i+1]
			continue
		}
		if c != '\\' {
			r += s[i : i+1]
			continue
		}
		i++
		base, n := 16, 0
		switch s[i] {
		case 'a':
			r += "\a"
		case 'b':
			r += "\b"
		case 'f':
			r += "\f"
		case 'n':
			r += "\n"
		case 'r':
			r += "\r"
		case 't':
			r += "\t"
		case 'v':
			r += "\v"
		case '\\', '\'', '"':
			r += s[i : i+1]
		case 'x':
			n = 2
		case 'u':
			n = 4
		case 'U':
			n = 8
		case '0', '1', '2', '3', '4', '5', '6', '7':
			base, n = 8, 3
			i--
		default:
			return "", false
		}
		if n == 0 {
			continue
		}
		if i+n >= len(s) {
			return "", false
		}
		v := 0
		for k := 0; k < n; k++ {
			i++
			d := hexVal(s[i])
			if d < 0 || d >= base {
				return "", false
			}
			v = v*base + d
		}
		if n < 4 {
			if v > 255 {
				return "", false
			}
			r += string([]byte{byte(v)})
			continue
		}
		if v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
			return "", false
		}
		r += string(rune(v))
	}
	return r, utf8.ValidString(r)
}

// quoted tells whether the text holds no unescaped quote and does not escape the closing one.
func quoted(s string, quote byte) bool {
	for i := 0; i < len(s); i++ {
		switch {
		case quote == '`':
			if s[i] == '`' {
				i++
				if i == len(s) || s[i] != '`' {
					return false
				}
			}
		case s[i] == '\\':
			i++
			if i == len(s) || s[i] == '\n' {
				return false
			}
		case s[i] == quote:
			return false
		}
	}
	return true
}

func check(s string, quote byte, before, after string) {
	vsym.Assume(quoted(s, quote))
	q := string([]byte{quote})
	text := before + q + s + q + after
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, nil)
	want, ok := decode(s, quote)
	if !ok {
		vsym.Cover("refused")
		vsym.Assert(err != nil, "accepts a literal that denotes nothing")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(err == nil, "refuses a literal")
	var got parser.Term
	switch t := hw.Strip(p.Grammar()["a"]).(type) {
	case parser.REF:
		got = t.Default
	default:
		got = t
	}
	lit, ok := got.(parser.S)
	vsym.Assert(ok, "not compiled to a literal")
	vsym.Assert(string(lit) == want, "text of the literal")
}

const alphabet = "\\abfnrtvxuU01789'\"`\n \xc3;%"

// Short literals of every content.
// bounds: up to three bytes (4 thorough) over 22 bytes: every escape letter, quotes, digits, line break, space, a byte that is no character, others; each of the three kinds of quotes.
func H_C13_short() {
	q := "\"'`"[vsym.Choose("quote", 3)]
	check(h.Text("s", h.Pick(3, 4), alphabet), q, "a -> ", ";")
}

// Hexadecimal, Unicode and octal escapes, complete, incomplete and with characters that are no digits, between other characters.
// bounds: \x with two, \u with four, \U with eight, an octal one with three characters over
// seven to thirteen bytes, up to one of them missing; one character before, one after.
func H_C13_numbers() {
	q := "\"'"[vsym.Choose("quote", 2)]
	digits := "08dF\""
	if vsym.Thorough() {
		digits = "018DdfF\"_"
	}
	s := vsym.Bytes("before", vsym.Choose("before#", 2), "x")
	switch vsym.Choose("kind", 4) {
	case 0:
		s += "\\x" + vsym.Bytes("d", 1+vsym.Choose("#", 2), "0148DdfFg\\x\"_")
	case 1:
		s += "\\u" + vsym.Bytes("d", 3+vsym.Choose("#", 2), digits)
	case 2:
		s += "\\U00" + vsym.Bytes("d", 2, "01") + vsym.Bytes("e", 1, "08d") + "0" + vsym.Bytes("f", 1+vsym.Choose("#", 2), "0f\"")
	case 3:
		s += "\\" + vsym.Bytes("d", 1, "0123456789") + vsym.Bytes("e", 1+vsym.Choose("#", 2), "01789ax")
	}
	s += vsym.Bytes("after", vsym.Choose("after#", 2), "0")
	check(s, q, "a -> ", ";")
}

// Two escapes that together make up one character of several bytes, or fail to.
// bounds: the second and third byte any of twelve two-digit numbers; as \x or octal.
func H_C13_bytes() {
	hex := func(i int) string { return `\x` + vsym.Bytes("d", 1, "3489abcd") + vsym.Bytes("e", 1, "0f") }
	s := [...]string{`\xc3`, `\303`, `\xe2`, `\xf0`, `\u00e9`}[vsym.Choose("lead", 5)]
	for i := 0; i < 2; i++ {
		s += hex(i)
	}
	check(s, '"', "a -> ", ";")
}

// The same in the other places where a literal can stand.
// bounds: nine places, two bytes over 22.
func H_C13_places() {
	q := "\"'`"[vsym.Choose("quote", 3)]
	place := [...][2]string{
		{"a -> %n=", ";"}, {"a->", ""}, {"a -> (", ");"}, {"// c\na -> ", " ; b -> \"y\";"}, {"b -> 'y'; a -> ", "\n;"},
		{".macro M(x) { x } a -> %!M(", ");"}, {".macro M() { ", " } a -> %!M();"}, {"b -> 'x' \"y\" `z`;/*'*/a -> ", ";"}, {".wrapRE -> /{()}; a -> ", ";"},
	}[vsym.Choose("place", 9)]
	if place[1] == "" {
		place[1] = ";"
	}
	check(h.Text("s", 2, alphabet), q, place[0], place[1])
}

// A parser of the literal accepts what the literal denotes, and nothing else.
// bounds: two bytes, each plain or escaped, over {a,n,t,\\,x}; text of up to three bytes.
func H_C13_parse() {
	s := ""
	for i := 0; i < 2; i++ {
		if vsym.Bool("escaped") {
			s += `\`
		}
		s += vsym.Bytes("s", 1, "ant\\")
	}
	vsym.Assume(quoted(s, '"'))
	p, err := wbnf.Compile("a -> \""+s+"\";", nil)
	want, ok := decode(s, '"')
	vsym.Assert((err == nil) == ok, "accepts exactly the literals that denote something")
	if !ok {
		return
	}
	text := h.Text("text", 3, "ant\\\a\n\t")
	te, err := p.Parse("a", parser.NewScanner(text))
	if text == want {
		vsym.Cover("equal")
		vsym.Assert(err == nil && te.(parser.Scanner).String() == text, "refuses what the literal denotes")
	} else {
		vsym.Cover("different")
		vsym.Assert(err != nil, "accepts what the literal does not denote")
	}
}

// Characters of several bytes, written as themselves or with a Unicode escape.
// bounds: every character of U+0080 to U+00FF, U+2000 to U+203F, U+1F600 to U+1F63F, with up to one malformed byte; \u20 followed by any two digits, or 20 after any two; each of the three kinds of quotes.
func H_C13_characters() {
	q := "\"'`"[vsym.Choose("quote", 3)]
	var s string
	tail := func(name string) string { return vsym.Bytes(name, 1, continuation) }
	switch vsym.Choose("kind", h.Pick(4, 5)) {
	case 0:
		s = vsym.Bytes("lead", 1, "\xc2\xc3") + tail("t")
	case 1:
		s = "\xe2\x80" + tail("t")
	case 2:
		s = "\xf0\x9f\x98" + tail("t")
	case 3:
		s = "\\u20" + vsym.Bytes("d", 2, hex)
	case 4:
		s = "\\u" + vsym.Bytes("d", 2, hex) + "35"
	}
	check(s, q, "a -> ", ";")
}

var continuation = func() string {
	s := "a\xc3"
	for c := 0x80; c < 0xc0; c++ {
		s += string([]byte{byte(c)})
	}
	return s
}()
