package c15

import (
	"path"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/internal/verif/hg"
	"github.com/arr-ai/wbnf/internal/verif/hw"
	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/wbnf"
)

// files is a file system of the harness, and resolves paths in it relative to the importing file.
type files struct {
	real map[string]string // where a file really is
	name map[string]string // the reverse
	text map[string]string
}

func newFiles() *files {
	return &files{map[string]string{}, map[string]string{"": "/root"}, map[string]string{}}
}

func (f *files) add(name, text string) {
	vsym.Note(func() string { return name + ": " + text })
	p := vsym.File("v"+name, text)
	f.real[name], f.name[p], f.text[name] = p, name, text
}

func (f *files) Resolve(from, imported string) string {
	name, ok := f.name[from]
	vsym.Assert(ok, "import from a file that imports nothing")
	p := path.Join(path.Dir(name), imported)
	if strings.HasPrefix(imported, "/") {
		p = path.Clean(imported)
	}
	if real, ok := f.real[p]; ok {
		return real
	}
	return "/nonexistent" + p
}

// decide compiles a text that imports and compares with the text that has everything included, unless that is impossible.
func decide(f *files, text, included string, possible bool) {
	vsym.Note(func() string { return "text: " + text })
	p, err := wbnf.Compile(text, f)
	want, ok := hg.Read(included)
	if !possible || !ok || hg.LeftRecursive(want) {
		vsym.Cover("refused")
		vsym.Assert(err != nil, "accepts an impossible or ill-formed import")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(err == nil, "refuses an import")
	hw.SameGrammar(hw.StripAll(p.Grammar()), hg.Unstack(want), "merged grammar")
}

// Files that import each other in any way, cycles and diamonds included, and files that are missing.
// bounds: three files (four thorough), each importing any subset of them and possibly a missing one; the text imports
// any subset, one of them possibly twice.
func H_C15_graph() {
	n := h.Pick(3, 4)
	rules := [...]string{"a0 -> 'x' b;", "a1 -> 'x' a0;", "b -> 'y' b?; .macro M(p) { 'z' p }", "a3 -> %!M(b);"}
	f := newFiles()
	possible := true
	included := "r -> 'r';"
	var order []int
	seen := map[int]bool{}
	imports := func(who string) string {
		s := ""
		for i := 0; i < n; i++ {
			if !vsym.Bool(who + " imports f" + strconv.Itoa(i)) {
				continue
			}
			s += "\n.import f" + strconv.Itoa(i)
			if i == 1 {
				s += ";"
			}
			if !seen[i] {
				seen[i] = true
				order = append(order, i)
				included += "\n" + rules[i]
			}
		}
		return s
	}
	text := "r -> 'r';" + imports("the text")
	if len(order) > 0 && vsym.Bool("twice") {
		text += "\n.import ./f" + strconv.Itoa(order[0])
	}
	for k := 0; k < len(order); k++ {
		i := order[k]
		s := imports("f" + strconv.Itoa(i))
		switch {
		case i == 0 && vsym.Bool("imports what is missing"):
			s, possible = s+"\n.import nowhere", false
			f.add("/f0", s+rules[i])
		case i == 1:
			f.add("/f1", rules[i]+s)
		default:
			f.add("/f"+strconv.Itoa(i), s+"\n"+rules[i])
		}
	}
	decide(f, text, included, possible)
}

// What files define together: every rule once, and none that are missing.
// bounds: the text and two files, the second imported by the first, each with a rule of any of three names referring to
// any of four.
func H_C15_rules() {
	rule := func(who string) string {
		return vsym.Bytes("rule of "+who, 1, "abc") + " -> 'x' " + vsym.Bytes("reference of "+who, 1, "abcd") + ";"
	}
	f := newFiles()
	r0, r1, r2 := rule("text"), rule("f1"), rule("f2")
	f.add("/f1", ".import f2 "+r1)
	f.add("/f2", r2)
	decide(f, r0+" .import f1; d -> 'y';", r0+r1+r2+" d -> 'y';", true)
}

// Paths are relative to the importing file, however they are written.
// bounds: four files in three directories; the text imports any of 12 paths, which imports any of 12 paths.
func H_C15_paths() {
	f := newFiles()
	rules := map[string]string{"/f": "f -> 'x';", "/d/f": "df -> 'x';", "/d/e/g.wbnf": "g -> 'x';", "/e/g.wbnf": "eg -> 'x';"}
	paths := [...]string{"f", "./f", "d/f", "d/e/../f", "e/g.wbnf", "../f", "../d/f", "/d/f", "/d/e/g.wbnf", "d/e/g.wbnf", "./././e/./g.wbnf", "../e/g.wbnf"}
	first, second := paths[vsym.Choose("first", 12)], paths[vsym.Choose("second", 12)]
	included := "r -> 's';"
	at := func(from, to string) string {
		if to[0] != '/' {
			to = path.Join(path.Dir(from), to)
		}
		return path.Clean(to)
	}
	one := at("/root", first)
	two := at(one, second)
	_, ok1 := rules[one]
	_, ok2 := rules[two]
	for name, rule := range rules {
		text := rule
		if name == one {
			text += " .import " + second
		}
		f.add(name, text)
		if name == one || name == two {
			included += rule
		}
	}
	decide(f, "r -> 's'; .import "+first, included, ok1 && ok2)
}

// What an imported file holds is a grammar of its own: statements do not begin in one file and end in another.
// bounds: an imported text of up to 5 bytes over {b c - > ; ' blank} and newline before a rule, or on its own.
func H_C15_text() {
	f := newFiles()
	s := h.Text("text", h.Pick(5, 6), "bc->;'\n")
	if vsym.Bool("rule follows") {
		s += " d -> 'x';"
	}
	f.add("/f", s)
	decide(f, "b -> 'y'; .import f a -> b;", "b -> 'y'; a -> b;"+s, hg.Syntax(s))
}

// Imports in nested grammars are rules of these, and macros are found where imports bring them.
// bounds: 11 texts, each with two files that import each other or not.
func H_C15_nested() {
	f := newFiles()
	m, c := ".macro M(p) { 'm' p } b -> 'b';", "c -> 'c';"
	switch vsym.Choose("edges", 4) {
	case 0:
		f.add("/m", m)
		f.add("/c", c)
	case 1:
		f.add("/m", m+".import c")
		f.add("/c", c)
		m += c
	case 2:
		f.add("/m", m)
		f.add("/c", ".import m "+c)
		c += m
	case 3:
		f.add("/m", m+".import c")
		f.add("/c", ".import m "+c)
		m += c
		c = m
	}
	ts := [...]string{
		"a -> %!M('x'); #m", "a -> b { #m }; #m", "a -> b { #m };", "a -> %!M(b) { #m };", "a -> b c { #m #c };", "a -> b { #m }; d -> c; #c", "a -> b > %!M(@) { #m } > 'x'; #c",
		"a -> b { b -> c { #c }; };", "a -> b { b -> c { #c }; #m };", "a -> b { d -> 'x'; #m // comment\n}; d -> 'y';", "#c a -> d; d -> c { #c } > 'x' { #m };",
	}
	text := ts[vsym.Choose("text", len(ts))]
	once := text
	for _, w := range [][2]string{{"#m", m}, {"#c", c}} {
		once = strings.Replace(once, w[0], w[1], -1)
	}
	if text == ts[4] && strings.Contains(m+c, c+m) || text == ts[4] && len(m) != len(c) && strings.Contains(m, c) || text == ts[4] && strings.Contains(c, m) {
		// one includes the other in the same grammar
		both := m
		if len(c) > len(m) {
			both = c
		}
		once = strings.Replace(text, "#m #c", both, 1)
	}
	text = strings.Replace(strings.Replace(text, "#m", ".import m", -1), "#c", ".import c", -1)
	decide(f, text, once, true)
}

// Without a resolver, paths name files as they are.
// bounds: a symbolic literal in the imported file; present or missing, imported once, twice or by a file that imports itself.
func H_C15_noresolver() {
	lit := vsym.Bytes("literal", 2, "xy;.")
	p := vsym.File("plain", "b -> '"+lit+"';")
	self := vsym.File("again", "")
	self = vsym.File("again", "c -> 'z'; .import "+p+" .import "+self+";")
	k := vsym.Choose("import", 4)
	text := "a -> b; .import " + [...]string{p, p + " .import " + p, self + "; .import " + p, p + "z"}[k]
	want := "a -> b; b -> '" + lit + "';" + [...]string{"", "", "c -> 'z';", ""}[k]
	vsym.Note(func() string { return "text: " + text })
	q, err := wbnf.Compile(text, nil)
	if k == 3 {
		vsym.Assert(err != nil, "imports a file that is missing")
		return
	}
	vsym.Assert(err == nil, "refuses an import")
	g, _ := hg.Read(want)
	hw.SameGrammar(hw.StripAll(q.Grammar()), hg.Unstack(g), "merged grammar")
}
