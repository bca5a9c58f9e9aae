package c25

import (
	"strconv"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// A reader of the part of Go that denotes grammars: composite literals of the term types, calls of the
// term constructors, string and number literals, constants of package parser. It follows the Go specification.

type tok struct {
	kind byte // i identifier, s string, n number, otherwise the punctuation character, 0 end
	text string
}

func bad(what string) { vsym.Fail("generated source: " + what) }

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }

// scan splits src into tokens (automatic semicolons included, as Go inserts them).
func scan(src string) []tok {
	if !utf8.ValidString(src) {
		bad("not UTF-8")
	}
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '\n':
			if n := len(out); n > 0 {
				switch out[n-1].kind {
				case 'i', 's', 'n', ')', '}':
					out = append(out, tok{';', ""})
				}
			}
			i++
		case letter(c):
			j := i
			for j < len(src) && (letter(src[j]) || digit(src[j])) {
				j++
			}
			out = append(out, tok{'i', src[i:j]})
			i = j
		case digit(c):
			j := i
			for j < len(src) && digit(src[j]) {
				j++
			}
			if c == '0' && j > i+1 {
				bad("number with a leading zero")
			}
			out = append(out, tok{'n', src[i:j]})
			i = j
		case c == '`':
			s := ""
			for i++; ; i++ {
				if i == len(src) {
					bad("unterminated raw string")
				}
				if src[i] == '`' {
					break
				}
				if src[i] == 0 || len(src) >= i+3 && src[i:i+3] == "\ufeff" {
					bad("a NUL or byte order mark")
				}
				if src[i] != '\r' {
					s += src[i : i+1]
				}
			}
			i++
			out = append(out, tok{'s', s})
		case c == '"':
			s := ""
			for i++; ; {
				if i >= len(src) || src[i] == '\n' {
					bad("unterminated string")
				}
				if src[i] == '"' {
					break
				}
				if src[i] == 0 || len(src) >= i+3 && src[i:i+3] == "\ufeff" {
					bad("a NUL or byte order mark")
				}
				if src[i] != '\\' {
					s += src[i : i+1]
					i++
					continue
				}
				r, n := escape(src[i+1:])
				s += r
				i += 1 + n
			}
			i++
			out = append(out, tok{'s', s})
		case c == '{' || c == '}' || c == '(' || c == ')' || c == ',' || c == ':' || c == '.' || c == '+' || c == '-':
			out = append(out, tok{c, ""})
			i++
		default:
			bad("unexpected character")
		}
	}
	return append(out, tok{0, ""})
}

// escape decodes the escape sequence at the start of s (after the backslash).
func escape(s string) (string, int) {
	if s == "" {
		bad("unterminated string")
	}
	const from, to = `abfnrtv\"`, "\a\b\f\n\r\t\v\\\""
	for i := range from {
		if s[0] == from[i] {
			return to[i : i+1], 1
		}
	}
	number := func(at, digits, base int) int {
		if len(s) < at+digits {
			bad("short escape")
		}
		v, err := strconv.ParseUint(s[at:at+digits], base, 64)
		if err != nil {
			bad("bad escape")
		}
		return int(v)
	}
	char := func(v int) string {
		if v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
			bad("bad character escape")
		}
		return string(rune(v))
	}
	switch {
	case s[0] == 'x':
		return string([]byte{byte(number(1, 2, 16))}), 3
	case s[0] == 'u':
		return char(number(1, 4, 16)), 5
	case s[0] == 'U':
		return char(number(1, 8, 16)), 9
	case s[0] >= '0' && s[0] <= '7':
		v := number(0, 3, 8)
		if v > 255 {
			bad("bad escape")
		}
		return string([]byte{byte(v)}), 3
	}
	bad("unknown escape")
	return "", 0
}

type reader struct {
	t []tok
}

func (r *reader) peek() byte { return r.t[0].kind }

func (r *reader) next(kind byte) string {
	if r.t[0].kind != kind {
		bad("syntax")
	}
	s := r.t[0].text
	r.t = r.t[1:]
	return s
}

// Evaluate is the grammar src denotes.
func Evaluate(src string) parser.Grammar {
	r := &reader{t: scan(src)}
	v := r.expr()
	if r.peek() == ';' {
		r.next(';')
	}
	r.next(0)
	g, ok := v.(parser.Grammar)
	if !ok {
		bad("no grammar")
	}
	return g
}

// expr is a value: string, int, bool, parser.Associativity, parser.Term or parser.Grammar; untyped strings are string.
func (r *reader) expr() any {
	v := r.operand()
	for r.peek() == '+' {
		r.next('+')
		a, ok1 := v.(string)
		b, ok2 := r.operand().(string)
		if !ok1 || !ok2 {
			bad("+ of something other than strings")
		}
		v = a + b
	}
	return v
}

func (r *reader) operand() any {
	switch r.peek() {
	case 's':
		return r.next('s')
	case 'n':
		n, err := strconv.Atoi(r.next('n'))
		if err != nil {
			bad("number out of range")
		}
		return n
	case '(':
		r.next('(')
		v := r.expr()
		r.next(')')
		return v
	}
	id := r.next('i')
	if id == "true" || id == "false" {
		return id == "true"
	}
	if id == "nil" {
		return nil
	}
	if id != "parser" {
		bad("unknown identifier")
	}
	r.next('.')
	id = r.next('i')
	switch id {
	case "At":
		return parser.Rule(parser.At)
	case "WrapRE":
		return parser.Rule(parser.WrapRE)
	case "NonAssociative":
		return parser.NonAssociative
	case "LeftToRight":
		return parser.LeftToRight
	case "RightToLeft":
		return parser.RightToLeft
	}
	switch r.peek() {
	case '(':
		return r.call(id)
	case '{':
		return r.literal(id)
	}
	bad("unknown constant")
	return nil
}

func term(v any) parser.Term {
	t, ok := v.(parser.Term)
	if !ok {
		bad("a term is due")
	}
	return t
}

func text(v any) string {
	s, ok := v.(string)
	if !ok {
		bad("a string is due")
	}
	return s
}

func (r *reader) call(id string) any {
	var args []any
	r.next('(')
	for r.peek() != ')' {
		args = append(args, r.expr())
		if r.peek() != ')' {
			r.next(',')
		}
	}
	r.next(')')
	n := map[string]int{"Eq": 2, "NonAssoc": 2, "L2R": 2, "R2L": 2}[id]
	if n == 0 {
		n = 1
	}
	if len(args) != n {
		bad("number of arguments")
	}
	switch id {
	case "S":
		return parser.S(text(args[0]))
	case "RE":
		return parser.RE(text(args[0]))
	case "Rule":
		return parser.Rule(text(args[0]))
	case "ExtRef":
		return parser.ExtRef(text(args[0]))
	case "Opt":
		return parser.Quant{Term: term(args[0]), Max: 1}
	case "Any":
		return parser.Quant{Term: term(args[0])}
	case "Some":
		return parser.Quant{Term: term(args[0]), Min: 1}
	case "Eq":
		return parser.Named{Name: text(args[0]), Term: term(args[1])}
	case "NonAssoc":
		return parser.Delim{Term: term(args[0]), Sep: term(args[1])}
	case "L2R":
		return parser.Delim{Term: term(args[0]), Sep: term(args[1]), Assoc: parser.LeftToRight}
	case "R2L":
		return parser.Delim{Term: term(args[0]), Sep: term(args[1]), Assoc: parser.RightToLeft}
	}
	bad("unknown function")
	return nil
}

var fields = map[string][]string{
	"Delim": {"Term", "Sep", "Assoc", "CanStartWithSep", "CanEndWithSep"}, "Quant": {"Term", "Min", "Max"},
	"Named": {"Name", "Term"}, "REF": {"Ident", "Default"}, "ScopedGrammar": {"Term", "Grammar"},
	"CutPoint": {"Term"}, "LookAhead": {"Term"},
}

func (r *reader) literal(id string) any {
	var keys []string
	var vals []any
	keyed := 0
	r.next('{')
	for r.peek() != '}' {
		key := ""
		if id == "Grammar" {
			key = text(r.expr())
			r.next(':')
			keyed++
		} else if r.peek() == 'i' && r.t[1].kind == ':' {
			key = r.next('i')
			r.next(':')
			keyed++
		}
		keys = append(keys, key)
		vals = append(vals, r.expr())
		if r.peek() != '}' {
			r.next(',')
		}
	}
	r.next('}')
	if keyed != 0 && keyed != len(keys) {
		bad("mixture of keyed and unkeyed values")
	}
	switch id {
	case "Grammar":
		g := parser.Grammar{}
		for i, k := range keys {
			if _, has := g[parser.Rule(k)]; has {
				bad("duplicate key")
			}
			g[parser.Rule(k)] = term(vals[i])
		}
		return g
	case "Seq", "Oneof", "Stack":
		if keyed != 0 {
			bad("keys in a list")
		}
		var ts []parser.Term
		for _, v := range vals {
			ts = append(ts, term(v))
		}
		switch id {
		case "Seq":
			return parser.Seq(ts)
		case "Oneof":
			return parser.Oneof(ts)
		}
		return parser.Stack(ts)
	}
	names, ok := fields[id]
	if !ok {
		bad("unknown type")
	}
	if keyed == 0 {
		if len(vals) != 0 && len(vals) != len(names) {
			bad("number of values")
		}
		keys = names
	}
	f := map[string]any{}
	for i, v := range vals {
		if _, has := f[keys[i]]; has {
			bad("field given twice")
		}
		f[keys[i]] = v
		known := false
		for _, n := range names {
			known = known || n == keys[i]
		}
		if !known {
			bad("unknown field")
		}
	}
	opt := func(name string) parser.Term {
		if f[name] == nil {
			return nil
		}
		return term(f[name])
	}
	num := func(name string) int {
		if f[name] == nil {
			return 0
		}
		n, ok := f[name].(int)
		if !ok {
			bad("a number is due")
		}
		return n
	}
	flag := func(name string) bool {
		if f[name] == nil {
			return false
		}
		b, ok := f[name].(bool)
		if !ok {
			bad("a boolean is due")
		}
		return b
	}
	str := func(name string) string {
		if f[name] == nil {
			return ""
		}
		return text(f[name])
	}
	switch id {
	case "Delim":
		var assoc parser.Associativity
		if f["Assoc"] != nil {
			a, ok := f["Assoc"].(parser.Associativity)
			if !ok {
				bad("an associativity is due")
			}
			assoc = a
		}
		return parser.Delim{Term: opt("Term"), Sep: opt("Sep"), Assoc: assoc, CanStartWithSep: flag("CanStartWithSep"), CanEndWithSep: flag("CanEndWithSep")}
	case "Quant":
		return parser.Quant{Term: opt("Term"), Min: num("Min"), Max: num("Max")}
	case "Named":
		return parser.Named{Name: str("Name"), Term: opt("Term")}
	case "REF":
		return parser.REF{Ident: str("Ident"), Default: opt("Default")}
	case "CutPoint":
		return parser.CutPoint{Term: opt("Term")}
	case "LookAhead":
		return parser.LookAhead{Term: opt("Term")}
	}
	var g parser.Grammar
	if f["Grammar"] != nil {
		var ok bool
		if g, ok = f["Grammar"].(parser.Grammar); !ok {
			bad("a grammar is due")
		}
	}
	return parser.ScopedGrammar{Term: opt("Term"), Grammar: g}
}
