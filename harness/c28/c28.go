package c28

import (
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/gotree"
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
)

// item is what the tree was built from.
type item struct {
	text string
	kids []*item
}

// build makes an arbitrary tree of up to *left further items; via Add or AddTree.
func build(parent *item, t gotree.Tree, left *int, depth int, text func() string) {
	for *left > 0 && vsym.Choose("more", 2) == 1 {
		*left--
		it := &item{text: text()}
		parent.kids = append(parent.kids, it)
		var sub gotree.Tree
		if vsym.Choose("how", 2) == 0 {
			sub = t.Add(it.text)
			if depth > 1 {
				build(it, sub, left, depth-1, text)
			}
		} else {
			sub = gotree.New(it.text)
			if depth > 1 {
				build(it, sub, left, depth-1, text)
			}
			t.AddTree(sub)
		}
	}
}

func split(s string) []string {
	out := []string{""}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, "")
		} else {
			out[len(out)-1] += s[i : i+1]
		}
	}
	return out
}

// want is the definition of the drawing: each line is one four-column cell per ancestor below the root
// (a bar while that ancestor has a later sibling), the item's own connector, and the line of text.
func want(out []string, it *item, bars string) []string {
	for i, k := range it.kids {
		last := i == len(it.kids)-1
		first, rest := "├── ", "│   "
		if last {
			first, rest = "└── ", "    "
		}
		for n, l := range split(k.text) {
			if n == 0 {
				out = append(out, bars+first+l)
			} else {
				out = append(out, bars+rest+l)
			}
		}
		out = want(out, k, bars+rest)
	}
	return out
}

func check(root *item, t gotree.Tree) {
	got := t.Print()
	w := root.text + "\n"
	for _, l := range want(nil, root, "") {
		w += l + "\n"
	}
	vsym.Note(func() string { return strconv.Quote(got) + " want " + strconv.Quote(w) })
	vsym.Assert(got == w, "drawing")
}

// Every shape of tree, with distinct texts.
// bounds: trees of <=5 items (7 thorough) below the root, depth <=4 (6 thorough), items added directly or as finished subtrees.
func H_C28_shape() {
	n := 0
	text := func() string { n++; return "t" + string(rune('a'+n)) }
	root := &item{text: "root"}
	t := gotree.New("root")
	left := h.Pick(5, 6)
	build(root, t, &left, h.Pick(4, 5), text)
	check(root, t)
	again := t.Print()
	vsym.Assert(again == t.Print(), "printing twice")
	same(root, t)
}

func same(it *item, t gotree.Tree) {
	vsym.Assert(t.Text() == it.text && len(t.Items()) == len(it.kids), "the tree holds what was added")
	for i, k := range it.kids {
		same(k, t.Items()[i])
	}
}

// Arbitrary texts, with line breaks, empty lines and characters of the drawing itself.
// bounds: trees of <=3 items, depth <=3, texts of 0..2 bytes (3 thorough) over {a,newline,space}; root text likewise.
func H_C28_text() {
	text := func() string { return h.Text("t", h.Pick(2, 3), "a\n ") }
	root := &item{text: text()}
	t := gotree.New(root.text)
	left := h.Pick(2, 3)
	build(root, t, &left, 3, text)
	check(root, t)
}

// A deep chain with siblings at chosen levels.
// bounds: depth 6 (9 thorough), each level with or without an earlier and a later sibling.
func H_C28_deep() {
	root := &item{text: "r"}
	t := gotree.New("r")
	it := root
	cur := t
	for d := 0; d < h.Pick(6, 8); d++ {
		k := vsym.Choose("sib", 4)
		if k&1 != 0 {
			it.kids = append(it.kids, &item{text: "b"})
			cur.Add("b")
		}
		mid := &item{text: "m"}
		it.kids = append(it.kids, mid)
		next := cur.Add("m")
		if k&2 != 0 {
			it.kids = append(it.kids, &item{text: "l"})
			cur.Add("l")
		}
		it, cur = mid, next
	}
	check(root, t)
}

// number is the value of the leading number of s that starts with 1..9 (ok), saturating.
func number(s string) (n int, ok bool) {
	const max = int(^uint(0) >> 1)
	if s == "" || s[0] < '1' || s[0] > '9' {
		return 0, false
	}
	for i := 0; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		d := int(s[i] - '0')
		if n > (max-d)/10 {
			n = max
		} else {
			n = n*10 + d
		}
	}
	return n, true
}

func rank(it *item) int {
	if n, ok := number(it.text); ok {
		return n
	}
	if len(it.kids) == 0 {
		return -1
	}
	r := rank(it.kids[0])
	for _, k := range it.kids[1:] {
		if s := rank(k); s < r {
			r = s
		}
	}
	return r
}

// The rank of a tree: its leading number, else the least of its items' ranks, else -1.
// bounds: trees of <=2 items, depth <=2, texts of 0..2 bytes (3 thorough) over {0,1,7,9,a}.
func H_C28_rank() {
	text := func() string { return h.Text("t", h.Pick(2, 3), "0179a") }
	root := &item{text: text()}
	t := gotree.New(root.text)
	left := h.Pick(2, 3)
	build(root, t, &left, 2, text)
	got := t.Rank()
	w := rank(root)
	vsym.Note(func() string { return root.text + " " + strconv.Itoa(got) })
	vsym.Assert(got == w, "rank")
}

// A leading number of any size has a rank: it never crashes and bigger numbers never rank below smaller ones.
// bounds: numbers of 17..21 digits starting 1, 2 or 9 with a second digit of 0, 1, 8 or 9 and ending in 0s, 2s or 9s.
func H_C28_bignum() {
	digits := 17 + vsym.Choose("digits", 5)
	first, second := vsym.Choose("d0", 3), vsym.Choose("d1", 4)
	s := []string{"1", "2", "9"}[first] + []string{"0", "1", "8", "9"}[second]
	s += strings.Repeat([]string{"0", "2", "9"}[vsym.Choose("fill", 3)], digits-2)
	got := gotree.New(s + "‣x").Rank()
	w, _ := number(s)
	vsym.Note(func() string { return s })
	vsym.Assert(got == w, "rank of a big number")
}

// Sorting leaves the same items, in an order of non-decreasing rank; equal ranks keep being present.
// bounds: <=4 items (5 thorough) with texts of 1..2 bytes over {0,1,7,9,a}, plus an item with a subitem.
func H_C28_sort() {
	n := vsym.Choose("n", h.Pick(4, 5))
	t := gotree.New("r")
	var its []gotree.Tree
	var ranks []int
	for i := 0; i < n; i++ {
		text := vsym.Bytes("t", 1+vsym.Choose("len", 2), "179a")
		sub := t.Add(text)
		it := &item{text: text}
		if vsym.Choose("kid", 2) == 1 {
			k := vsym.Bytes("k", 1, "28b")
			sub.Add(k)
			it.kids = append(it.kids, &item{text: k})
		}
		its = append(its, sub)
		ranks = append(ranks, rank(it))
	}
	t.SortItems()
	got := t.Items()
	vsym.Assert(len(got) == n, "as many items")
	prev := -2
	used := make([]bool, n)
	for _, g := range got {
		found := false
		for i := range its {
			if its[i] == g && !used[i] {
				used[i], found = true, true
				vsym.Assert(ranks[i] >= prev, "order of ranks")
				prev = ranks[i]
				break
			}
		}
		vsym.Assert(found, "the same items")
	}
}
