package c03

import (
	"regexp"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// view is the specification of a scanner: a range of a source.
type view struct{ lo, hi int }

func check(src string, s parser.Scanner, v view, what string) {
	vsym.Assert(s.Offset() == v.lo, what+": offset")
	vsym.Assert(s.String() == src[v.lo:v.hi], what+": text")
}

// Every history of up to k operations (Slice, Skip, Eat, EatString, EatRegexp) on a scanner over a text of n
// symbolic bytes; after each operation offset and text must be those of the same operation on the string.
// bounds: quick n<=4, k=3; thorough n<=5, k=4; bytes a, b, newline; EatString arguments of up to 2 bytes.
func H_C03_history() {
	n := h.Pick(4, 5)
	src := vsym.Bytes("src", n, "ab\n")
	reA := vsym.Once("re", func() any {
		return []*regexp.Regexp{regexp.MustCompile(`(?m)\A(a*)(b?)`), regexp.MustCompile(`(?m)\A(?:(a)|b(a))`), regexp.MustCompile(`(?m)\A\s*(b+)`)}
	}).([]*regexp.Regexp)
	var s *parser.Scanner
	v := view{0, n}
	switch vsym.Choose("new", 3) {
	case 0:
		s = parser.NewScanner(src)
	case 1:
		s = parser.NewScannerWithFilename(src, "f.x")
		vsym.Assert(s.Filename() == "f.x", "Filename is lost")
	case 2:
		v.lo, v.hi = h.Range("at", n)
		s = parser.NewScannerAt(src, v.lo, v.hi-v.lo)
	}
	check(src, *s, v, "new")
	k := h.Pick(3, 4)
	for i := 0; i < k; i++ {
		size := v.hi - v.lo
		before := *s
		switch vsym.Choose("op", 6) {
		case 0:
			lo, hi := h.Range("slice", size)
			s = s.Slice(lo, hi)
			v = view{v.lo + lo, v.lo + hi}
			check(src, *s, v, "Slice")
			check(src, before, view{before.Offset(), before.Offset() + size}, "Slice changed its receiver")
		case 1:
			d := vsym.Choose("skip", size+1)
			s = s.Skip(d)
			v.lo += d
			check(src, *s, v, "Skip")
		case 2:
			d := vsym.Choose("eat", size+1)
			var e parser.Scanner
			s.Eat(d, &e)
			check(src, e, view{v.lo, v.lo + d}, "Eat result")
			v.lo += d
			check(src, *s, v, "Eat rest")
		case 3:
			str := h.Text("str", 2, "ab")
			var e parser.Scanner
			ok := s.EatString(str, &e)
			want := h.HasPrefix(src[v.lo:v.hi], str)
			vsym.Assert(ok == want, "EatString success")
			if ok {
				vsym.Cover("EatString ok")
				check(src, e, view{v.lo, v.lo + len(str)}, "EatString result")
				v.lo += len(str)
			} else {
				vsym.Cover("EatString fails")
			}
			check(src, *s, v, "EatString rest")
		case 4:
			re := reA[vsym.Choose("re", len(reA))]
			loc := re.FindStringSubmatchIndex(src[v.lo:v.hi])
			var m parser.Scanner
			caps := make([]parser.Scanner, 2)
			cnt, ok := s.EatRegexp(re, &m, caps)
			vsym.Assert(ok == (loc != nil), "EatRegexp success")
			if ok {
				vsym.Cover("EatRegexp ok")
				vsym.Assert(cnt == len(loc)/2-1, "EatRegexp number of captures")
				check(src, m, view{v.lo, v.lo + loc[1]}, "EatRegexp match")
				for j := 0; j < cnt; j++ {
					if loc[2+2*j] >= 0 {
						check(src, caps[j], view{v.lo + loc[2+2*j], v.lo + loc[3+2*j]}, "EatRegexp capture")
					}
				}
				v.lo += loc[1]
			} else {
				vsym.Cover("EatRegexp fails")
			}
			check(src, *s, v, "EatRegexp rest")
		case 5:
			t := s.StripSource()
			vsym.Assert(t.String() == src[v.lo:v.hi], "StripSource text")
			check(src, *s, v, "StripSource changed its receiver")
		}
	}
	vsym.Observe(s.String())
	vsym.Observe(s.Offset())
}

// Merging: any three ranges of one source, in any order; and ranges of different sources.
// bounds: source of n<=4 bytes (5 thorough); up to 3 ranges.
func H_C03_merge() {
	n := h.Pick(4, 5)
	src := vsym.Bytes("src", n, "ab")
	k := 1 + vsym.Choose("k", 3)
	var items []parser.Scanner
	lo, hi := n+1, -1
	whole := parser.NewScanner(src)
	for i := 0; i < k; i++ {
		a := vsym.Int("lo", 0, n)
		b := vsym.Int("hi", 0, n)
		vsym.Assume(a <= b)
		items = append(items, *whole.Slice(a, b))
		if a < lo {
			lo = a
		}
		if b > hi {
			hi = b
		}
	}
	m, err := parser.MergeScanners(items...)
	vsym.Assert(err == nil, "merging scanners of one source fails")
	vsym.Assert(m.Offset() == lo, "merged scanner starts elsewhere than the first of its parts")
	vsym.Assert(len(m.String()) == hi-lo, "merged scanner is longer or shorter than the range of its parts")
	vsym.Assert(m.String() == src[lo:hi], "merged text")
	for _, it := range items {
		vsym.Assert(m.Contains(it), "merged scanner does not contain its part")
	}
	vsym.Cover("merged")
}

// Scanners of different sources do not merge, in whatever position the odd one is, and never contain each other.
// bounds: two sources of up to 3 bytes that differ in text or file name; 2 or 3 scanners.
func H_C03_sources() {
	n := 3
	a := vsym.Bytes("a", n, "ab")
	b := vsym.Bytes("b", n, "ab")
	var s1, s2 *parser.Scanner
	if vsym.Choose("by", 2) == 0 {
		vsym.Assume(a != b)
		s1, s2 = parser.NewScanner(a), parser.NewScanner(b)
	} else {
		s1, s2 = parser.NewScannerWithFilename(a, "x"), parser.NewScannerWithFilename(a, "y")
	}
	l1, h1 := h.Range("r1", n)
	l2, h2 := h.Range("r2", n)
	x, y := *s1.Slice(l1, h1), *s2.Slice(l2, h2)
	vsym.Assert(!x.Contains(y), "contains a range of another source")
	vsym.Assert(!y.Contains(x), "contains a range of another source")
	var err error
	switch vsym.Choose("order", 4) {
	case 0:
		_, err = parser.MergeScanners(x, y)
	case 1:
		_, err = parser.MergeScanners(x, x, y)
	case 2:
		_, err = parser.MergeScanners(x, y, x)
	case 3:
		_, err = parser.MergeScanners(y, x, x)
	}
	vsym.Assert(err != nil, "scanners of different sources merge")
	_, err = parser.MergeScanners()
	vsym.Assert(err != nil, "merging nothing succeeds")
	vsym.Cover("refused")
}

// Containment holds exactly for sub-ranges.
// bounds: source of 5 bytes, all pairs of ranges.
func H_C03_contains() {
	n := 5
	src := vsym.Bytes("src", n, "ab")
	s := parser.NewScanner(src)
	a, b := vsym.Int("a", 0, n), vsym.Int("b", 0, n)
	c, d := vsym.Int("c", 0, n), vsym.Int("d", 0, n)
	vsym.Assume(a <= b && c <= d)
	x, y := s.Slice(a, b), s.Slice(c, d)
	if x.Contains(*y) {
		vsym.Cover("contained")
		vsym.Assert(a <= c && d <= b, "contains a range that sticks out")
	} else {
		vsym.Cover("not contained")
		vsym.Assert(!(a <= c && d <= b), "does not contain a sub-range")
	}
}

// The zero scanner is empty and nil; others are not nil.
// bounds: none.
func H_C03_zero() {
	var z parser.Scanner
	vsym.Assert(z.IsNil() && z.String() == "", "zero scanner")
	src := h.Text("src", 2, "a")
	vsym.Assert(!parser.NewScanner(src).IsNil(), "IsNil of a scanner over a text")
}
