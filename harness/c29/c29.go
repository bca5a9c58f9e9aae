package c29

import (
	"strconv"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

const (
	red   = "\033[1;31m"
	plain = "\033[0m"
)

type refused struct{}

func (refused) Error() string { return "refused by the handler" }

type stop struct{ pos int }

func (stop) Error() string { return "stopped by the handler" }
func (stop) IsStopError()  {}

// after cuts s behind the first sep, or returns "".
func after(s, sep string) (string, bool) {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return s[i+len(sep):], true
		}
	}
	return "", false
}

func before(s, sep string) string {
	rest, ok := after(s, sep)
	if !ok {
		return s
	}
	return s[:len(s)-len(rest)-len(sep)]
}

// pairs returns what a message says was expected and found.
func pairs(msg string) (r [][2]string) {
	for {
		rest, ok := after(msg, "expect: ")
		if !ok {
			return
		}
		text, ok := after(rest, red)
		vsym.Assert(ok, "nothing expected is shown")
		expect := before(text, plain)
		rest, ok = after(text, "actual: ")
		vsym.Assert(ok, "nothing found is shown")
		text, ok = after(rest, red)
		vsym.Assert(ok, "nothing found is shown")
		r = append(r, [2]string{expect, flush(before(text, plain))})
		msg = text
	}
}

// trim cuts white space off.
func trim(s string) string {
	for s != "" && (s[0] == ' ' || s[0] == '\n') {
		s = s[1:]
	}
	for s != "" && (s[len(s)-1] == ' ' || s[len(s)-1] == '\n') {
		s = s[:len(s)-1]
	}
	return s
}

// flush drops the indentation of lines, of the source and of the message.
func flush(s string) (r string) {
	start := false
	for i := 0; i < len(s); i++ {
		if start && (s[i] == ' ' || h.HasPrefix(s[i:], "│")) {
			if s[i] != ' ' {
				i += len("│") - 1
			}
			continue
		}
		start = s[i] == '\n'
		r += s[i : i+1]
	}
	return
}

// literal returns the text that is missing where expect is expected: the text of a literal, or what terms gives for a pattern.
func literal(expect string, terms map[string]string) (string, bool) {
	if lit, ok := terms[expect]; ok {
		return lit, true
	}
	if len(expect) > 1 && expect[0] == '"' {
		s, err := strconv.Unquote(expect)
		if err != nil {
			return "", false
		}
		_, known := terms[""] // any literal
		return s, known
	}
	return "", false
}

// missing tells if found is what is left at some place of src, maybe shortened, at which there is no lit.
func missing(src, found, lit string) bool {
	for n := 0; n <= len(src); n++ {
		text := flush(trim(src[n:]))
		if len(found) > 6 && len(text) > len(found)-5 && found[len(found)-5:] == "  ..." {
			if h.HasPrefix(text, found[:len(found)-5]) && !h.HasPrefix(src[n:], lit) {
				return true
			}
			continue
		}
		if text == found && !h.HasPrefix(src[n:], lit) {
			return true
		}
	}
	return false
}

// fails parses src with rule a and looks at the error, if any: it has to name the rule (unless a commit point or a handler
// ended the parse), and something that isn't where the message says: a terminal of terms, any literal if terms has "".
func fails(p parser.Parsers, src string, terms map[string]string, commits bool, exts parser.ExternalRefs, also ...string) error {
	vsym.Note(func() string { return "grammar: " + p.Grammar().String() + "   source: " + strconv.Quote(src) })
	te, err := p.ParseWithExternals("a", parser.NewScanner(src), exts)
	if err == nil {
		return nil
	}
	vsym.Assert(te == nil, "a tree and an error")
	msg := err.Error()
	vsym.Note(func() string { return "message: " + strconv.Quote(msg) })
	vsym.Assert(msg != "", "an empty message")
	if u, ok := err.(parser.UnconsumedInputError); ok {
		vsym.Cover("unconsumed")
		text, ok := after(msg, red)
		vsym.Assert(ok && flush(before(text, plain)) == flush(u.Residue().String()), "the message doesn't show what isn't consumed")
		return err
	}
	if _, ok := err.(parser.StopError); ok {
		vsym.Cover("stopped")
		return err
	}
	vsym.Cover("error")
	_, ok := after(msg, "rule(a)")
	if !ok {
		_, ok = after(msg, "ident:a ") // in the list of what was being parsed
	}
	if commits {
		_, ok = after(msg, "rule(")
	}
	vsym.Assert(ok, "the message doesn't name the rule")
	found := pairs(msg)
	if len(found) == 0 {
		for _, text := range also {
			if _, ok := after(msg, text); ok {
				vsym.Cover("other")
				return err
			}
		}
		vsym.Fail("the message doesn't tell what was expected and found")
	}
	for _, pair := range found {
		lit, ok := literal(pair[0], terms)
		vsym.Assert(ok, "the message expects what the grammar doesn't")
		vsym.Assert(missing(src, trim(pair[1]), lit), "what is found isn't in the source, or what is expected is there")
	}
	return err
}

const (
	a, b = parser.Rule("a"), parser.Rule("b")
	x    = parser.S("x")
)

func gen(ops string, leaves ...parser.Term) *h.Gen {
	return &h.Gen{Ops: ops, NoLit: true, Names: []string{"n"}, Quants: [][2]int{{0, 1}, {1, 0}, {2, 3}},
		Leaves: leaves, Delims: []parser.Delim{{}, {CanStartWithSep: true, CanEndWithSep: true}}}
}

// Every operator: the message names the rule, a literal or pattern of the grammar, and the place in the source where it is missing.
// bounds: a rule of up to 2 operators of sequence, choice, quantifier, lookahead, name and delimiter over a literal, a
// pattern and a rule; text <=3 bytes over {x,y} (4 thorough).
func H_C29_terms() {
	g := parser.Grammar{"a": gen("soqlnd", x, parser.RE("yy|yx"), b).UpTo(2), "b": parser.Seq{x, parser.S("y")}}
	fails(g.Compile(nil), h.Text("text", h.Pick(3, 4), "xy"), map[string]string{`"x"`: "x", `"y"`: "y", `(?m)\A(yy|yx)`: "yy"}, false, nil)
}

// Texts that are shortened in the message, of several lines and with characters of several bytes.
// bounds: 6 texts of 0–70 bytes behind a text <=3 bytes over {x, space, newline} (4 thorough); 4 grammars.
func H_C29_texts() {
	src := h.Text("text", h.Pick(3, 4), "x \n") + []string{
		"", "y", "  1234567890123456789012345678901234567890", "ééééééééééééééééééééééééééééééé", "é\n\n\n\n\n\nxé\n\n\n\n", "1234567890 1234567890 1234567890 1234567890 1234567890 1234567890 1234",
	}[vsym.Choose("rest", 6)]
	g := []parser.Grammar{
		{"a": parser.Seq{parser.Some(x), parser.S("\n"), parser.S("é")}},
		{"a": parser.Oneof{parser.Seq{x, parser.S(" ")}, parser.Seq{parser.Some(parser.RE(`\s`)), parser.S("y"), x}}},
		{"a": parser.Delim{Term: x, Sep: parser.S("\n")}},
		{"a": parser.Seq{parser.Eq("n", parser.RE(`[x\s]`)), parser.REF{Ident: "n"}, parser.S("1")}},
	}[vsym.Choose("grammar", 4)]
	fails(g.Compile(nil), src, map[string]string{"": "", `(?m)\A([x\s])`: "x", `(?m)\A(\s)`: " "}, false, nil)
}

// patterns are shown as they are compiled.
var patterns = map[string]string{"": "", `(?m)\A([xy])`: "x", `(?m)\A(.)`: "x", `(?m)\A\s*(?:((x)|y))\s*`: "x"}

var texts = []string{
	`a -> n="x" %n "y";`,
	`a -> n=[xy] (m="x" %n | %m='y'); b -> %n "y" | "xx";`,
	`a -> (n="x")? %n | %n="y";`,
	`a -> (n=[xy] "x"){2,2} %n;`,
	`a -> "x" "y" | "xy" "y";`,
	`a -> ("x" b | "y"):"y"; b -> "x" ("y" | "x") | "y";`,
	`a -> @:"x" > @ "y" > "y" "x" | "(" @ ")";`,
	`a -> b "x" { b -> "y" c | d; d -> "x"; c -> "x" "x"; };`,
	`a -> b+ { b -> %%e "x" | "y"; };`,
	`a -> "x" (%%e | %%s "y") | "y" %%z;`,
	`a -> (?= "x" %%e) "x" "y" | "y" (?= "x") .;`,
	`a -> b:"x" | "y"; b -> %%s "y" | %%e;
.wrapRE -> /{\s*()};`,
	`a -> /{(x)|y}:,"/" "x";
.wrapRE -> /{\s*()\s*};`,
	`a -> "yxy"?:"x", "y";`,
}

// Grammars of the language: back-references, commit points, stacks, nested grammars, external references and wrapping
// patterns. An error of a handler that stops the parse is returned as it is, and no handler is called after it.
// bounds: 14 grammars; text <=3 bytes over {x,y} (4 thorough).
func H_C29_compiled() {
	n := vsym.Choose("grammar", len(texts))
	p := hw.MustCompile(texts[n])
	src := h.Text("text", h.Pick(3, 4), "xy")
	var stopped error
	handler := func(stops bool) parser.ExternalRef {
		return func(_ parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			vsym.Assert(stopped == nil, "the parse goes on after it was stopped")
			pos := input.Offset()
			if h.HasPrefix(src[pos:], "x") {
				var eaten parser.Scanner
				input.Eat(1, &eaten)
				return eaten, nil
			}
			if stops {
				stopped = stop{pos}
				return nil, stopped
			}
			return nil, refused{}
		}
	}
	err := fails(p, src, patterns, true, parser.ExternalRefs{"e": handler(false), "s": handler(true)},
		"Backref not", "refused by the handler", "External handler not found")
	if stopped != nil {
		vsym.Assert(err == stopped, "the error that stopped the parse isn't what is returned")
	}
}

// A rule that the grammar doesn't have.
// bounds: names <=2 bytes over {a,b,%,space}; 2 grammars.
func H_C29_rule() {
	name := h.Text("rule", 2, "ab% ")
	p := []parser.Parsers{parser.Grammar{"a": x}.Compile(nil), hw.MustCompile(`a -> b { b -> "x"; };`)}[vsym.Choose("grammar", 2)]
	if name == "a" {
		return
	}
	te, err := p.Parse(parser.Rule(name), parser.NewScanner("x"))
	vsym.Assert(te == nil && err != nil, "a rule that isn't there is parsed")
	_, ok := after(err.Error(), name)
	vsym.Assert(ok, "the message doesn't name the rule")
}
