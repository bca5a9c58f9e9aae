package c02

import (
	"strconv"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// wantPos is the definition of line and column.
func wantPos(src string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; i++ {
		if src[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return
}

// Position of every slice of every text, reached by slicing, skipping, eating or directly.
// bounds: text <=7 bytes (9 thorough) over {a,newline,carriage return}, all slices.
func H_C02_position() {
	n := vsym.Choose("n", h.Pick(8, 10))
	src := vsym.Bytes("src", n, "a\n\r")
	lo, hi := h.Range("at", n)
	s := parser.NewScanner(src)
	switch vsym.Choose("how", 4) {
	case 0:
		s = s.Slice(lo, hi)
	case 1:
		s = s.Skip(lo)
	case 2:
		s = parser.NewScannerAt(src, lo, hi-lo)
	case 3:
		var e parser.Scanner
		s.Eat(lo, &e)
		line, col := e.Position()
		vsym.Assert(line == 1 && col == 1, "position of text eaten at the start")
	}
	line, col := s.Position()
	wl, wc := wantPos(src, lo)
	vsym.Assert(line == wl, "line")
	vsym.Assert(col == wc, "column")
	if wl > 1 && wc > 1 {
		vsym.Cover("inner line and column")
	}
}

// Arbitrary bytes and multi-byte characters: the column counts bytes.
// bounds: text of up to 4 pieces of {é, 世, newline, NUL, 0xff}.
func H_C02_bytes() {
	pieces := []string{"é", "世", "\n", "\x00", "\xff"}
	src := ""
	for i, n := 0, vsym.Choose("n", 5); i < n; i++ {
		src += pieces[vsym.Choose("piece", len(pieces))]
	}
	at := vsym.Choose("at", len(src)+1)
	line, col := parser.NewScanner(src).Skip(at).Position()
	wl, wc := wantPos(src, at)
	vsym.Assert(line == wl && col == wc, "position")
}

func lines(s string) int { return h.Count(s, '\n') }

// Context: header, text and neighbouring lines.
// bounds: text <=5 bytes (6 thorough) over {a,newline}, all slices, limits -1 to 3, with and without file name.
func H_C02_context() {
	n := vsym.Choose("n", h.Pick(6, 7))
	src := vsym.Bytes("src", n, "a\n")
	lo, hi := h.Range("at", n)
	name := [...]string{"", "f.x"}[vsym.Choose("file", 2)]
	s := parser.NewScannerWithFilename(src, name).Slice(lo, hi)
	limit := vsym.Choose("limit", 5) - 1
	out := s.Context(limit)
	wl, wc := wantPos(src, lo)
	head := "\n\033[1;37m" + name + ":" + strconv.Itoa(wl) + ":" + strconv.Itoa(wc) + ":\033[0m\n"
	vsym.Assert(h.HasPrefix(out, head), "context starts with the file name and position")
	rest := out[len(head):]
	const red, off = "\033[1;31m", "\033[0m"
	mid := red + src[lo:hi] + off
	// the neighbouring text holds no escape character, so the first one starts the marked text
	k := 0
	for k < len(rest) && rest[k] != '\033' {
		k++
	}
	above := rest[:k]
	vsym.Assert(h.HasPrefix(rest[k:], mid), "context shows the scanner's text")
	below := rest[k+len(mid):]
	fa, fb := src[:lo], src[hi:]
	if limit < 0 {
		vsym.Cover("unlimited")
		vsym.Assert(above == fa, "all of the source before")
		vsym.Assert(below == fb, "all of the source after")
		return
	}
	vsym.Assert(len(above) <= len(fa) && above == fa[len(fa)-len(above):], "text before is not what precedes")
	vsym.Assert(len(below) <= len(fb) && below == fb[:len(below)], "text after is not what follows")
	vsym.Assert(lines(above) <= limit, "more lines before than asked for")
	vsym.Assert(lines(below) <= limit, "more lines after than asked for")
	vsym.Assert(len(above) == len(fa) || fa[len(fa)-len(above)-1] == '\n', "text before starts inside a line")
	vsym.Assert(len(above) == len(fa) || lines(above) == limit, "fewer lines before than there are and asked for")
	if limit > 0 {
		vsym.Assert(len(below) == len(fb) || fb[len(below)] == '\n', "text after ends inside a line")
		vsym.Assert(len(below) == len(fb) || lines(below) >= limit-1, "fewer lines after than there are and asked for")
	}
	vsym.Cover("limited")
}

// The position of every token of a parse, with and without text before the part that is parsed.
// bounds: text <=5 bytes (6 thorough) over {a,newline}; grammar a token or newline at a time.
func H_C02_tokens() {
	p := vsym.Once("p", func() any {
		return parser.Grammar{"a": parser.Any(parser.Oneof{parser.S("\n"), parser.RE("a+")})}.Compile(nil)
	}).(parser.Parsers)
	src := h.Text("src", h.Pick(5, 6), "a\n")
	te, err := p.Parse("a", parser.NewScanner(src))
	vsym.Assert(err == nil, "parse")
	at := 0
	for _, c := range te.(parser.Node).Children {
		s := c.(parser.Node).GetScanner(0)
		l, k := s.Position()
		wl, wk := wantPos(src, at)
		vsym.Assert(l == wl && k == wk, "position of a token")
		at += len(s.String())
	}
}
