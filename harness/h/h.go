// Package h holds helpers shared by the harnesses.
package h

import (
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if vsym.Thorough() {
		return t
	}
	return q
}

// Text is a source text of every length 0..max over alphabet.
func Text(name string, max int, alphabet string) string {
	return vsym.Bytes(name, vsym.Choose(name+"#", max+1), alphabet)
}

// Range is an arbitrary pair 0 <= lo <= hi <= n, explored case by case.
func Range(name string, n int) (lo, hi int) {
	lo = vsym.Choose(name+".lo", n+1)
	hi = lo + vsym.Choose(name+".len", n-lo+1)
	return
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// Count counts c in s.
func Count(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

// HasPrefix is strings.HasPrefix, spelled out.
func HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// Scan is a scanner over the whole of s.
func Scan(s string) *parser.Scanner { return parser.NewScanner(s) }

// Join lists strings.
func Join(l []string) string {
	r := ""
	for i, s := range l {
		if i > 0 {
			r += ", "
		}
		r += s
	}
	return r
}
