package c19

import (
	"fmt"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

const (
	leaf = iota
	extra
	branch
)

// node describes a syntax tree; kids are in insertion order.
type node struct {
	kind   int
	lo, hi int // leaf
	data   ast.Extra
	names  []string
	many   []bool
	kids   [][]*node
}

func (n *node) build(src *parser.Scanner) ast.Node {
	switch n.kind {
	case leaf:
		return ast.Leaf(*src.Slice(n.lo, n.hi))
	case extra:
		return n.data
	}
	b := ast.Branch{}
	for i, name := range n.names {
		if !n.many[i] {
			b[name] = ast.One{Node: n.kids[i][0].build(src)}
			continue
		}
		m := ast.Many{}
		for _, k := range n.kids[i] {
			m = append(m, k.build(src))
		}
		b[name] = m
	}
	return b
}

func (n *node) at(name string) int {
	for i, x := range n.names {
		if x == name {
			return i
		}
	}
	return -1
}

// gen generates trees over a source of srcLen bytes.
type gen struct {
	srcLen int
	names  []string
	extras bool
	budget int
	spans  bool // tokens of any position and length (else: one byte each, in order)
	next   int
}

func (g *gen) leaf() *node {
	g.budget--
	if g.spans {
		lo, hi := h.Range("leaf", g.srcLen)
		return &node{kind: leaf, lo: lo, hi: hi}
	}
	g.next++
	return &node{kind: leaf, lo: g.next - 1, hi: g.next}
}

func (g *gen) node(depth int) *node {
	n := 1
	if g.extras {
		n++
	}
	k := vsym.Choose("kind", n+1)
	if k == n || depth == 0 {
		if k == n {
			g.budget--
			return g.branch(depth)
		}
	}
	if k == 1 {
		return &node{kind: extra, data: g.data()}
	}
	return g.leaf()
}

func (g *gen) data() ast.Extra {
	switch vsym.Choose("data", 3) {
	case 0:
		return ast.Extra{Data: parser.Choice(vsym.Int("choice", 0, 2))}
	case 1:
		return ast.Extra{Data: parser.Rule(vsym.Bytes("rule", 1, "ab"))}
	}
	return ast.Extra{Data: vsym.Int("n", 0, 2)}
}

func (g *gen) branch(depth int) *node {
	b := &node{kind: branch}
	for _, name := range g.names {
		if g.budget <= 0 && name != ast.ChoiceTag {
			break
		}
		c := vsym.Choose("at "+name, 3)
		if c == 0 {
			continue
		}
		b.names = append(b.names, name)
		b.many = append(b.many, c == 2)
		var kids []*node
		kid := func() {
			if name != "" && name[0] == '@' {
				kids = append(kids, &node{kind: extra, data: ast.Extra{Data: parser.Choice(vsym.Int("choice", 0, 2))}})
			} else if depth > 0 {
				kids = append(kids, g.node(depth-1))
			} else {
				kids = append(kids, g.leaf())
			}
		}
		if c == 1 {
			kid()
		} else {
			for len(kids) < 2 && g.budget > 0 && vsym.Choose("more", 2) == 1 {
				kid()
			}
		}
		b.kids = append(b.kids, kids)
	}
	return b
}

// same states that got is the tree n describes.
func same(got ast.Node, n *node, what string) {
	switch n.kind {
	case leaf:
		l, ok := got.(ast.Leaf)
		vsym.Assert(ok, what+": a token")
		s := l.Scanner()
		vsym.Assert(s.Offset() == n.lo && len(s.String()) == n.hi-n.lo, what+": the token")
	case extra:
		e, ok := got.(ast.Extra)
		vsym.Assert(ok && e.Data == n.data.Data, what+": the extra")
	default:
		b, ok := got.(ast.Branch)
		vsym.Assert(ok && len(b) == len(n.names), what+": the branch")
		for i, name := range n.names {
			c, has := b[name]
			vsym.Assert(has, what+": the name")
			if n.many[i] {
				m, ok := c.(ast.Many)
				vsym.Assert(ok && len(m) == len(n.kids[i]), what+": the list")
				for j := range m {
					same(m[j], n.kids[i][j], what)
				}
			} else {
				o, ok := c.(ast.One)
				vsym.Assert(ok, what+": the child")
				same(o.Node, n.kids[i][0], what)
			}
		}
	}
}

func note(n ast.Node) { vsym.Note(func() string { return fmt.Sprint(n) }) }

// One, Many, First, All and Which, for present and absent names.
// bounds: branches with any of 3 names, each a single or 0..2 repeated children, nested to depth 1, 4 tokens and branches below the root (5 thorough).
func H_C19_lookup() {
	src := parser.NewScanner("abcdefgh")
	g := &gen{names: []string{"", "a", "b"}, budget: h.Pick(4, 5)}
	m := g.branch(1)
	t := m.build(src)
	note(t)
	b := t.(ast.Branch)
	for _, name := range []string{"", "a", "b", "c"} {
		i := m.at(name)
		one, many, first, all := t.One(name), t.Many(name), ast.First(t, name), ast.All(t, name)
		switch {
		case i < 0:
			vsym.Assert(one == nil && len(many) == 0 && first == nil && len(all) == 0, "absent name")
		case !m.many[i]:
			k := m.kids[i][0]
			same(one, k, "One")
			same(first, k, "First")
			vsym.Assert(len(many) == 0, "a single child is no list")
			vsym.Assert(len(all) == 1, "All of a single child")
			same(all[0], k, "All")
		default:
			k := m.kids[i]
			vsym.Assert(one == nil, "a list is no single child")
			vsym.Assert(len(many) == len(k) && len(all) == len(k), "Many and All")
			for j := range k {
				same(many[j], k[j], "Many")
				same(all[j], k[j], "All")
			}
			if len(k) == 0 {
				vsym.Assert(first == nil, "First of an empty list")
			} else {
				same(first, k[0], "First")
			}
		}
	}
	for _, names := range [][]string{{"a"}, {"b", "a"}, {"c", "", "a"}, {"a", "b", ""}, {"c", "d"}} {
		want := ""
		var wc ast.Children
		for _, n := range names {
			if m.at(n) >= 0 {
				want, wc = n, b[n]
				break
			}
		}
		got, c := ast.Which(b, names...)
		vsym.Assert(got == want && (c == nil) == (wc == nil), "Which")
		if c != nil {
			i := m.at(got)
			_, isMany := c.(ast.Many)
			vsym.Assert(isMany == m.many[i], "children Which returns")
		}
	}
	same(t, m, "unchanged")
}

// Nodes without children have none, and nil has none.
func H_C19_none() {
	var n ast.Node
	switch vsym.Choose("node", 4) {
	case 0:
		n = ast.Leaf(*parser.NewScanner("x"))
	case 1:
		n = ast.Extra{Data: 1}
	case 2:
		n = ast.Branch{}
	}
	for _, name := range []string{"", "a", ast.ChoiceTag} {
		vsym.Assert(ast.First(n, name) == nil && len(ast.All(n, name)) == 0, "no children")
		if n != nil {
			vsym.Assert(n.One(name) == nil && len(n.Many(name)) == 0, "no children")
		}
	}
	vsym.Assert(ast.Choice(n) == -1, "no choice")
}

// Choice is the first recorded choice.
// bounds: 0..3 recorded choices of any number, single or in a list.
func H_C19_choice() {
	b := ast.Branch{"x": ast.One{Node: ast.Leaf(*parser.NewScanner("x"))}}
	n := vsym.Choose("n", 4)
	c := make([]int, n)
	for i := range c {
		c[i] = vsym.Int("choice", 0, 1000)
	}
	if n == 1 && vsym.Choose("single", 2) == 1 {
		b[ast.ChoiceTag] = ast.One{Node: ast.Extra{Data: parser.Choice(c[0])}}
	} else if n > 0 {
		m := ast.Many{}
		for _, x := range c {
			m = append(m, ast.Extra{Data: parser.Choice(x)})
		}
		b[ast.ChoiceTag] = m
	}
	if n == 0 {
		vsym.Assert(ast.Choice(b) == -1, "no choice")
	} else {
		vsym.Assert(ast.Choice(b) == c[0], "the choice")
	}
}

// extent is the smallest range that holds all tokens below n (ok: there is one), names with @ aside.
func extent(n *node) (lo, hi int, ok bool) {
	if n.kind == leaf {
		return n.lo, n.hi, true
	}
	for i, name := range n.names {
		if name != "" && name[0] == '@' {
			continue
		}
		for _, k := range n.kids[i] {
			l, r, has := extent(k)
			if !has {
				continue
			}
			if !ok {
				lo, hi, ok = l, r, true
				continue
			}
			if l < lo {
				lo = l
			}
			if r > hi {
				hi = r
			}
		}
	}
	return
}

// The text of a tree is the smallest range of the source that holds all of its tokens, none if it holds none.
// bounds: depth <=2, 3 tokens and branches below the root (4 thorough), the tokens anywhere in a source of 3 bytes, names "", a and @choice, empty lists and branches.
func H_C19_scanner() {
	src := vsym.Bytes("src", 3, "")
	s := parser.NewScanner(src)
	g := &gen{names: []string{"", "a", ast.ChoiceTag}, budget: h.Pick(3, 4), srcLen: 3, spans: true}
	m := g.branch(2)
	t := m.build(s)
	note(t)
	lo, hi, ok := extent(m)
	got := t.Scanner()
	vsym.Assert(got.IsNil() != ok, "a tree without tokens has no text, one with tokens has")
	if ok {
		vsym.Assert(got.Offset() == lo && got.String() == src[lo:hi], "text of the tree")
		vsym.Cover("text")
	}
	for _, name := range []string{"", "a"} {
		if i := m.at(name); i >= 0 {
			lo, hi, ok := extent(&node{kind: branch, names: []string{"x"}, many: []bool{true}, kids: [][]*node{m.kids[i]}})
			got := t.(ast.Branch)[name].Scanner()
			vsym.Assert(got.IsNil() != ok, "text of the children")
			if ok {
				vsym.Assert(got.Offset() == lo && got.String() == src[lo:hi], "text of the children")
			}
		}
	}
	same(t, m, "unchanged")
}

// equal is the definition of equal content.
func equal(src string, a, b *node) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case leaf:
		return src[a.lo:a.hi] == src[b.lo:b.hi]
	case extra:
		return a.data.Data == b.data.Data
	}
	if len(a.names) != len(b.names) {
		return false
	}
	for i, name := range a.names {
		j := b.at(name)
		if j < 0 || a.many[i] != b.many[j] || len(a.kids[i]) != len(b.kids[j]) {
			return false
		}
		for k := range a.kids[i] {
			if !equal(src, a.kids[i][k], b.kids[j][k]) {
				return false
			}
		}
	}
	return true
}

func compare(src string, a, b *node) {
	s := parser.NewScanner(src)
	x, y := a.build(s), b.build(s)
	note(x)
	note(y)
	w := equal(src, a, b)
	vsym.Assert(x.ContentEquals(y) == w, "equal content")
	vsym.Assert(y.ContentEquals(x) == w, "equal content, the other way round")
	vsym.Assert(x.ContentEquals(x) && y.ContentEquals(y), "a tree has its own content")
	if w {
		vsym.Cover("equal")
	}
}

// Comparing two trees of any shapes by content.
// bounds: depth <=1, <=2 tokens and branches each (3 thorough), tokens of one byte of a source of 6 arbitrary bytes (8 thorough), extras of three types, names a, b and @choice.
func H_C19_equal() {
	n := h.Pick(2, 3)
	src := vsym.Bytes("src", 2*n+2, "")
	g := &gen{names: []string{"a", "b"}, budget: n, extras: true}
	a := g.node(1)
	g.budget = n
	compare(src, a, g.node(1))
}

// Two trees of the same shape whose tokens and extras are arbitrary.
// bounds: depth <=2, <=3 tokens and branches below the root (4 thorough), tokens of 0..1 bytes of a source of 3 arbitrary bytes.
func H_C19_equalshape() {
	src := vsym.Bytes("src", 3, "")
	g := &gen{names: []string{"", "a", ast.ChoiceTag}, budget: h.Pick(3, 4)}
	a := g.branch(2)
	var respan func(n *node) *node
	respan = func(n *node) *node {
		c := *n
		switch n.kind {
		case leaf:
			c.lo = vsym.Choose("lo", 2)
			c.hi = c.lo + vsym.Choose("len", 2)
		case extra:
			c.data = ast.Extra{Data: parser.Choice(vsym.Int("choice", 0, 2))}
		}
		c.kids = nil
		for _, ks := range n.kids {
			var r []*node
			for _, k := range ks {
				r = append(r, respan(k))
			}
			c.kids = append(c.kids, r)
		}
		return &c
	}
	x := respan(a)
	compare(src, x, respan(a))
}

// Comparing by content ignores which source and position the tokens come from.
// bounds: two sources of 3 and 4 arbitrary bytes, two tokens of 0..2 bytes each.
func H_C19_sources() {
	p, q := vsym.Bytes("p", 3, ""), vsym.Bytes("q", 4, "")
	var texts []string
	mk := func(s *parser.Scanner, src string, i int) ast.Node {
		lo := i + vsym.Choose("lo", 2)
		mid := lo + vsym.Choose("mid", 3)
		hi := mid + vsym.Choose("hi", 3)
		if hi > len(src) {
			vsym.Assume(false)
		}
		texts = append(texts, src[lo:mid], src[mid:hi])
		return ast.Branch{"a": ast.Many{ast.Leaf(*s.Slice(lo, mid)), ast.Leaf(*s.Slice(mid, hi))}}
	}
	x, y := mk(parser.NewScanner(p), p, 0), mk(parser.NewScannerWithFilename(q, "f"), q, 1)
	vsym.Assert(x.ContentEquals(y) == (texts[0] == texts[2] && texts[1] == texts[3]), "equal content from two sources")
}
