package c27

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
)

// eq is the definition of equal terms.
func eq(a, b parser.Term) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case parser.S:
		b, ok := b.(parser.S)
		return ok && a == b
	case parser.RE:
		b, ok := b.(parser.RE)
		return ok && a == b
	case parser.Rule:
		b, ok := b.(parser.Rule)
		return ok && a == b
	case parser.ExtRef:
		b, ok := b.(parser.ExtRef)
		return ok && a == b
	case parser.REF:
		b, ok := b.(parser.REF)
		return ok && a.Ident == b.Ident && eq(a.Default, b.Default)
	case parser.Seq:
		b, ok := b.(parser.Seq)
		return ok && eqs(a, b)
	case parser.Oneof:
		b, ok := b.(parser.Oneof)
		return ok && eqs(a, b)
	case parser.Stack:
		b, ok := b.(parser.Stack)
		return ok && eqs(a, b)
	case parser.Delim:
		b, ok := b.(parser.Delim)
		return ok && a.Assoc == b.Assoc && a.CanStartWithSep == b.CanStartWithSep && a.CanEndWithSep == b.CanEndWithSep &&
			eq(a.Term, b.Term) && eq(a.Sep, b.Sep)
	case parser.Quant:
		b, ok := b.(parser.Quant)
		return ok && a.Min == b.Min && a.Max == b.Max && eq(a.Term, b.Term)
	case parser.Named:
		b, ok := b.(parser.Named)
		return ok && a.Name == b.Name && eq(a.Term, b.Term)
	case parser.CutPoint:
		b, ok := b.(parser.CutPoint)
		return ok && eq(a.Term, b.Term)
	case parser.LookAhead:
		b, ok := b.(parser.LookAhead)
		return ok && eq(a.Term, b.Term)
	case parser.ScopedGrammar:
		b, ok := b.(parser.ScopedGrammar)
		return ok && eq(a.Term, b.Term) && eqGrammar(a.Grammar, b.Grammar)
	}
	panic("unknown term")
}

func eqs(a, b []parser.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func eqGrammar(a, b parser.Grammar) bool {
	if len(a) != len(b) {
		return false
	}
	for r, x := range a {
		y, ok := b[r]
		if !ok || !eq(x, y) {
			return false
		}
	}
	return true
}

func compare(a, b parser.Term) {
	w := eq(a, b)
	vsym.Note(func() string { return fmt.Sprintf("%T %v\n%T %v", a, a, b, b) })
	vsym.Assert(diff.Terms(a, b).Equal() == w, "difference of two terms")
	vsym.Assert(diff.Terms(b, a).Equal() == w, "difference the other way round")
	if w {
		vsym.Cover("equal")
	} else {
		vsym.Cover("different")
	}
}

func str(name string) string { return vsym.Bytes(name, 1, "ab") }

// leaf is an arbitrary leaf term of the given kind.
func leaf(kind int) parser.Term {
	switch kind {
	case 0:
		return parser.S(str("s"))
	case 1:
		return parser.RE(str("re"))
	case 2:
		return parser.Rule(str("rule"))
	case 3:
		return parser.ExtRef(str("ext"))
	case 4:
		return parser.REF{Ident: str("ref")}
	case 5:
		return parser.REF{Ident: str("ref"), Default: parser.S(str("dflt"))}
	}
	return parser.REF{Ident: str("ref"), Default: parser.RE(str("dflt"))}
}

const leafKinds = 7

// over is a composite of the given kind; sub makes its i-th part.
func over(kind int, sub func(i int) parser.Term) parser.Term {
	switch kind {
	case 0:
		return parser.Seq{}
	case 1:
		return parser.Seq{sub(0)}
	case 2:
		return parser.Seq{sub(0), sub(1)}
	case 3:
		return parser.Oneof{sub(0)}
	case 4:
		return parser.Oneof{sub(0), sub(1)}
	case 5:
		return parser.Stack{sub(0), sub(1)}
	case 6:
		assoc := parser.Associativity(vsym.Int("assoc", -1, 1))
		start, end := vsym.Bool("start"), vsym.Bool("end")
		return parser.Delim{Term: sub(0), Sep: sub(1), Assoc: assoc, CanStartWithSep: start, CanEndWithSep: end}
	case 7:
		min, max := vsym.Int("min", 0, 3), vsym.Int("max", 0, 3)
		return parser.Quant{Term: sub(0), Min: min, Max: max}
	case 8:
		name := str("name")
		return parser.Named{Name: name, Term: sub(0)}
	case 9:
		return parser.CutPoint{Term: sub(0)}
	case 10:
		return parser.LookAhead{Term: sub(0)}
	case 11:
		rule := parser.Rule(str("inner"))
		return parser.ScopedGrammar{Term: sub(0), Grammar: parser.Grammar{rule: sub(1)}}
	case 12:
		return parser.ScopedGrammar{Term: sub(0), Grammar: parser.Grammar{}}
	}
	return parser.Seq{sub(0), sub(1), sub(2)}
}

const overKinds = 14

func small() parser.Term {
	k := vsym.Choose("kind", leafKinds+overKinds)
	if k < leafKinds {
		return leaf(k)
	}
	return over(k-leafKinds, func(int) parser.Term { return leaf(2 * vsym.Choose("sub", 2)) })
}

// Every pair of small terms of any kinds.
// bounds: terms of at most one operator of each kind over literals and rule references with arbitrary texts, numbers and options.
func H_C27_pairs() {
	a := small()
	compare(a, small())
}

// Two terms of the same shape whose texts, names, numbers and options are all arbitrary.
// bounds: nesting of <=2 operators (3 thorough) of every kind, down to every kind of leaf.
func H_C27_deep() {
	var shape func(n int) func() parser.Term
	shape = func(n int) func() parser.Term {
		if n == 0 {
			k := vsym.Choose("leaf", leafKinds)
			return func() parser.Term { return leaf(k) }
		}
		kind := 1 + vsym.Choose("over", overKinds-1)
		parts := [...]int{0, 1, 2, 1, 2, 2, 2, 1, 1, 1, 1, 2, 1, 3}[kind]
		at := 0
		if parts > 1 {
			at = vsym.Choose("at", parts)
		}
		inner := shape(n - 1)
		return func() parser.Term {
			return over(kind, func(i int) parser.Term {
				if i == at {
					return inner()
				}
				return parser.S("k")
			})
		}
	}
	mk := shape(1 + vsym.Choose("ops", h.Pick(2, 3)))
	a := mk()
	compare(a, mk())
}

// Terms that differ in the kind of one part at any depth.
// bounds: nesting of <=2 operators (3 thorough), the part replaced by any other kind of leaf, an operator around it, or nothing.
func H_C27_kinds() {
	var shape func(n int, bottom func() parser.Term) func() parser.Term
	shape = func(n int, bottom func() parser.Term) func() parser.Term {
		if n == 0 {
			return bottom
		}
		kind := 1 + vsym.Choose("over", overKinds-1)
		inner := shape(n-1, bottom)
		return func() parser.Term {
			return fixed(kind, inner)
		}
	}
	k, l := vsym.Choose("a", leafKinds+1), vsym.Choose("b", leafKinds+overKinds)
	bottom := func() parser.Term {
		if k == leafKinds {
			return parser.Seq{}
		}
		return plain(k)
	}
	a := bottom
	mk := shape(vsym.Choose("ops", h.Pick(3, 4)), func() parser.Term { return a() })
	x := mk()
	a = func() parser.Term {
		if l < leafKinds {
			return plain(l)
		}
		return fixed(l-leafKinds, func() parser.Term { return plain(0) })
	}
	compare(x, mk())
}

// plain and fixed are leaf and over with fixed texts, names, numbers and options.
func plain(kind int) parser.Term {
	return [...]parser.Term{parser.S("a"), parser.RE("a"), parser.Rule("a"), parser.ExtRef("a"), parser.REF{Ident: "a"},
		parser.REF{Ident: "a", Default: parser.S("a")}, parser.REF{Ident: "a", Default: parser.RE("a")}}[kind]
}

func fixed(kind int, sub func() parser.Term) parser.Term {
	k := parser.S("k")
	switch kind {
	case 0:
		return parser.Seq{}
	case 1:
		return parser.Seq{sub()}
	case 2:
		return parser.Seq{k, sub()}
	case 3:
		return parser.Oneof{sub()}
	case 4:
		return parser.Oneof{sub(), k}
	case 5:
		return parser.Stack{k, sub()}
	case 6:
		return parser.Delim{Term: k, Sep: sub()}
	case 7:
		return parser.Quant{Term: sub(), Min: 1}
	case 8:
		return parser.Named{Name: "n", Term: sub()}
	case 9:
		return parser.CutPoint{Term: sub()}
	case 10:
		return parser.LookAhead{Term: sub()}
	case 11:
		return parser.ScopedGrammar{Term: k, Grammar: parser.Grammar{"r": sub()}}
	case 12:
		return parser.ScopedGrammar{Term: sub(), Grammar: parser.Grammar{"r": k}}
	}
	return parser.Delim{Term: sub(), Sep: k}
}

// Two grammars: the rules only in one, and the rules that differ, are exactly the reported ones.
// bounds: each of 3 rules in either, both or none, with arbitrary one-byte literals or references.
func H_C27_grammars() {
	names := []parser.Rule{"a", "b", "c"}
	side := func() parser.Grammar {
		g := parser.Grammar{}
		for i, r := range names {
			if vsym.Choose("has", 2) == 1 {
				t := leaf(0)
				if i == 0 {
					t = parser.Seq{leaf(2 * vsym.Choose("kind", 2))}
				}
				g[r] = t
			}
		}
		return g
	}
	a := side()
	b := side()
	d := diff.Grammars(a, b)
	w := eqGrammar(a, b)
	vsym.Assert(d.Equal() == w, "difference of two grammars")
	vsym.Assert(diff.Grammars(b, a).Equal() == w, "difference the other way round")
	for _, r := range names {
		x, inA := a[r]
		y, inB := b[r]
		vsym.Assert(contains(d.OnlyInA, r) == (inA && !inB), "rules only in the first")
		vsym.Assert(contains(d.OnlyInB, r) == (inB && !inA), "rules only in the second")
		_, has := d.Prods[r]
		vsym.Assert(has == (inA && inB && !eq(x, y)), "rules that differ")
	}
	vsym.Assert(len(d.OnlyInA)+len(d.OnlyInB)+len(d.Prods) <= 3, "nothing else reported")
}

func contains(rs []parser.Rule, r parser.Rule) bool {
	n := 0
	for _, x := range rs {
		if x == r {
			n++
		}
	}
	vsym.Assert(n <= 1, "reported once")
	return n == 1
}

// eqTree is the definition of equal parse trees: the same tags, extras, numbers of children and token texts.
func eqTree(a, b parser.TreeElement) bool {
	switch a := a.(type) {
	case parser.Scanner:
		b, ok := b.(parser.Scanner)
		return ok && a.String() == b.String()
	case parser.Empty:
		_, ok := b.(parser.Empty)
		return ok
	case parser.Node:
		b, ok := b.(parser.Node)
		if !ok || a.Tag != b.Tag || a.Extra != b.Extra || len(a.Children) != len(b.Children) {
			return false
		}
		for i, c := range a.Children {
			if !eqTree(c, b.Children[i]) {
				return false
			}
		}
		return true
	}
	panic("unknown element")
}

func element(depth int) parser.TreeElement {
	n := 3
	if depth == 0 {
		n = 2
	}
	switch vsym.Choose("element", n) {
	case 0:
		return *parser.NewScannerAt(vsym.Bytes("tok", 1, "ab")+"x", 0, 1)
	case 1:
		return parser.Empty{}
	}
	return node(depth - 1)
}

func node(depth int) parser.Node {
	n := parser.Node{Tag: str("tag")}
	switch vsym.Choose("extra", 3) {
	case 1:
		n.Extra = parser.Choice(vsym.Int("choice", 0, 2))
	case 2:
		n.Extra = parser.Associativity(vsym.Int("assoc", -1, 1))
	}
	for vsym.Choose("child", 2) == 1 && len(n.Children) < 2 {
		n.Children = append(n.Children, element(depth))
	}
	return n
}

func compareNodes(a, b parser.Node) {
	w := eqTree(a, b)
	vsym.Note(func() string { return fmt.Sprintf("%v\n%v", a, b) })
	d := diff.NewNodeDiff(&a, &b)
	e := diff.NewNodeDiff(&b, &a)
	vsym.Assert(d.Equal() == w, "difference of two trees")
	vsym.Assert(e.Equal() == w, "difference the other way round")
	vsym.Assert((d.String() == "") == w, "report of the difference")
	for i := range d.Children {
		vsym.Assert(i < len(a.Children) && i < len(b.Children) && !eqTree(a.Children[i], b.Children[i]), "the reported child differs")
	}
}

// Two trees of one node each with leaves below.
// bounds: <=2 children each, tokens of one byte, empty markers, every tag and extra.
func H_C27_nodes() {
	a := node(0)
	compareNodes(a, node(0))
}

// Trees equal except for one element at any depth.
// bounds: depth <=3 (4 thorough), one to two siblings, the element any token, marker or node.
func H_C27_nodesdeep() {
	d := vsym.Choose("depth", h.Pick(3, 4))
	var at []int
	for i := 0; i < d; i++ {
		at = append(at, vsym.Choose("at", 2))
	}
	wrap := func(e parser.TreeElement) parser.Node {
		for i := range at {
			kids := []parser.TreeElement{parser.Empty{}, parser.Node{Tag: "s", Children: []parser.TreeElement{*parser.NewScanner("s")}}}
			kids[at[i]] = e
			e = parser.Node{Tag: strings.Repeat("t", i+1), Extra: parser.Choice(i), Children: kids}
		}
		return parser.Node{Tag: "root", Children: []parser.TreeElement{e}}
	}
	a := wrap(element(1))
	compareNodes(a, wrap(element(1)))
}

// Extras that hold a syntax tree, as external references leave them.
func H_C27_nodesext() {
	mk := func() parser.Node {
		return parser.Node{Tag: "extref", Extra: bag{str("k"): 1}}
	}
	a, b := mk(), mk()
	w := true
	for k := range a.Extra.(bag) {
		if b.Extra.(bag)[k] != 1 {
			w = false
		}
	}
	vsym.Assert(diff.NewNodeDiff(&a, &b).Equal() == w, "difference of two extras")
}

type bag map[string]int

func (bag) IsExtra() {}
