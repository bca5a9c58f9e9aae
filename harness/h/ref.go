package h

import (
	"regexp"
	"strconv"

	"github.com/arr-ai/wbnf/internal/verif/vsym"
	"github.com/arr-ai/wbnf/parser"
)

// T is the tree the documented semantics prescribes.
type T struct {
	Tok    bool // a token src[Lo:Hi]
	Empty  bool // the marker beyond an optional separator
	Look   bool // what a lookahead saw
	Lo, Hi int
	Tag    string
	Extra  parser.Extra
	Kids   []*T
}

// binding is a name matched before in an enclosing sequence.
type binding struct {
	name string
	val  *T
	next *binding
}

// Env is a grammar in its scope.
type Env struct {
	G  parser.Grammar
	Up *Env
}

// Lookup returns the definition of a rule and the grammar it is in.
func (e *Env) Lookup(r parser.Rule) (parser.Term, *Env) {
	for ; e != nil; e = e.Up {
		if t, ok := e.G[r]; ok {
			return t, e
		}
	}
	return nil, nil
}

// wrap is the wrapping pattern in force: its own, else the enclosing one.
func (e *Env) wrap() parser.Term {
	t, _ := e.Lookup(parser.WrapRE)
	return t
}

// layer says what @ means: the stack rule and the layer the term is in.
type layer struct {
	rule  parser.Rule
	stack parser.Stack
	i     int
	env   *Env
}

// M is the reference matcher: the documented ordered semantics, written as directly as possible.
type M struct {
	Src string
	// Ext handles external references and, under the empty name, the escape between Open and Close, if there is one.
	Ext   Handler
	Open  []string
	Close []string
	Stop  bool // the handler has stopped everything
	depth int
}

// Handler is given a position and the values matched so far by name; its result is t and the end of what it consumes.
type Handler func(name string, pos int, val func(string) *T) (end int, t *T, v Verdict)

type Verdict int

const (
	Done Verdict = iota
	Refused
	Stopped
)

// first is the length of the first of the delimiters that s begins with.
func first(s string, delims []string) int {
	for _, d := range delims {
		if HasPrefix(s, d) {
			return len(d)
		}
	}
	return 0
}

func (m *M) external(name string, pos int, sc *binding) res {
	end, t, v := m.Ext(name, pos, func(name string) *T {
		for b := sc; b != nil; b = b.next {
			if b.name == name {
				return b.val
			}
		}
		return nil
	})
	m.Stop = m.Stop || v == Stopped
	return res{end, t, v == Done}
}

type res struct {
	end int
	t   *T
	ok  bool
}

var failed = res{}

// Rule matches rule r of g at 0.
func (m *M) Rule(g parser.Grammar, r parser.Rule) (end int, t *T, ok bool) {
	x := m.rule(&Env{G: g}, r, nil, 0, nil)
	return x.end, x.t, x.ok
}

func (m *M) rule(e *Env, r parser.Rule, l *layer, pos int, sc *binding) res {
	m.depth++
	if m.depth > 200 {
		vsym.Fail("the reference does not terminate: the harness generated a left-recursive grammar")
	}
	defer func() { m.depth-- }()
	if r == parser.At && l != nil {
		j := (l.i + 1) % len(l.stack)
		return m.layer(&layer{l.rule, l.stack, j, l.env}, pos, sc)
	}
	return m.body(e, r, string(r), pos, sc)
}

// body matches the body of rule r under the name of the rule that refers to it.
func (m *M) body(e *Env, r parser.Rule, tag string, pos int, sc *binding) res {
	for {
		t, de := e.Lookup(r)
		if t == nil {
			vsym.Fail("harness: undefined rule")
		}
		body := unnamed(t)
		if a, ok := body.(parser.Rule); ok {
			e, r = de, a
			continue
		}
		if st, ok := t.(parser.Stack); ok {
			return m.layer(&layer{parser.Rule(tag), st, 0, de}, pos, sc)
		}
		return m.match(de, t, tag, nil, pos, sc)
	}
}

func unnamed(t parser.Term) parser.Term {
	for {
		n, ok := t.(parser.Named)
		if !ok {
			return t
		}
		t = n.Term
	}
}

// refers tells whether t is but a reference to a rule, whose name its tree bears.
func refers(t parser.Term) bool {
	switch t := t.(type) {
	case parser.Rule:
		return true
	case parser.Named:
		return refers(t.Term)
	case parser.ScopedGrammar:
		return refers(t.Term)
	}
	return false
}

func (m *M) layer(l *layer, pos int, sc *binding) res {
	tag := string(l.rule)
	if l.i > 0 {
		tag += "@" + strconv.Itoa(l.i)
	}
	return m.match(l.env, l.stack[l.i], tag, l, pos, sc)
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// nameOf is the name a sequence item is known under.
func nameOf(t parser.Term) string {
	switch x := t.(type) {
	case parser.Named:
		if x.Name != "" {
			return x.Name
		}
		return nameOf(x.Term)
	case parser.Rule:
		return string(x)
	case parser.Quant:
		return nameOf(x.Term)
	}
	return ""
}

func bind(sc *binding, name string, v *T) *binding {
	if name == "" {
		return sc
	}
	return &binding{name, v, sc}
}

// again matches the tokens of v once more.
func (m *M) again(v *T, tag string, pos int) res {
	if v.Tok {
		s := m.Src[v.Lo:v.Hi]
		if HasPrefix(m.Src[pos:], s) {
			return res{pos + len(s), &T{Tok: true, Lo: pos, Hi: pos + len(s)}, true}
		}
		return failed
	}
	vsym.Assume(!v.Look) // it was seen, but not matched
	n := &T{Tag: tag}
	for _, k := range v.Kids {
		if !k.Empty {
			r := m.again(k, "_", pos)
			if !r.ok {
				return failed
			}
			n.Kids = append(n.Kids, r.t)
			pos = r.end
		}
	}
	return res{pos, n, true}
}

func (m *M) match(e *Env, t parser.Term, tag string, l *layer, pos int, sc *binding) res {
	if n := first(m.Src[pos:], m.Open); n > 0 {
		switch t.(type) {
		case parser.Rule, parser.Named, parser.CutPoint, parser.ScopedGrammar:
		default:
			r := m.external("", pos+n, sc)
			if !r.ok {
				return failed
			}
			n = first(m.Src[r.end:], m.Close)
			r.end += n
			r.ok = n > 0
			return r
		}
	}
	switch t := t.(type) {
	case parser.ExtRef:
		return m.external(string(t), pos, sc)
	case parser.S:
		return m.terminal(e, string(t), regexp.QuoteMeta(string(t)), true, pos)
	case parser.RE:
		return m.terminal(e, string(t), string(t), false, pos)
	case parser.Rule:
		return m.rule(e, t, l, pos, sc)
	case parser.Named:
		if !refers(t.Term) {
			tag = or(tag, t.Name)
		}
		return m.match(e, t.Term, tag, l, pos, sc)
	case parser.CutPoint:
		return m.match(e, t.Term, tag, l, pos, sc)
	case parser.Seq:
		n := &T{Tag: or(tag, "_")}
		for _, x := range t {
			r := m.match(e, x, "", l, pos, sc)
			if !r.ok {
				return failed
			}
			sc = bind(sc, nameOf(x), r.t)
			n.Kids = append(n.Kids, r.t)
			pos = r.end
		}
		return res{pos, n, true}
	case parser.Oneof:
		for i, x := range t {
			if r := m.match(e, x, "", l, pos, sc); r.ok {
				return res{r.end, &T{Tag: or(tag, "|"), Extra: parser.Choice(i), Kids: []*T{r.t}}, true}
			}
			if m.Stop {
				break
			}
		}
		return failed
	case parser.Quant:
		n := &T{Tag: or(tag, "?")}
		for t.Max == 0 || len(n.Kids) < t.Max {
			r := m.match(e, t.Term, "", l, pos, sc)
			if !r.ok || t.Max == 0 && r.end == pos && len(n.Kids) >= t.Min {
				break
			}
			n.Kids = append(n.Kids, r.t)
			pos = r.end
		}
		if len(n.Kids) < t.Min || m.Stop {
			return failed
		}
		return res{pos, n, true}
	case parser.LookAhead:
		r := m.match(e, t.Term, "", l, pos, sc)
		if !r.ok {
			return failed
		}
		return res{pos, &T{Look: true, Tag: or(tag, "?="), Kids: []*T{r.t}}, true}
	case parser.Delim:
		return m.delim(e, t, tag, l, pos, sc)
	case parser.REF:
		for b := sc; b != nil; b = b.next {
			if b.name == t.Ident {
				return m.again(b.val, t.Ident, pos)
			}
		}
		if t.Default == nil {
			return failed
		}
		return m.match(&Env{G: parser.Grammar{}}, t.Default, t.Ident, nil, pos, sc)
	case parser.ScopedGrammar:
		inner := &Env{G: t.Grammar, Up: e}
		if r, ok := unnamed(t.Term).(parser.Rule); ok && tag != "" && r != parser.At {
			return m.body(inner, r, tag, pos, sc)
		}
		return m.match(inner, t.Term, tag, l, pos, sc)
	}
	vsym.Fail("harness: unsupported term")
	return failed
}

// terminal matches a literal (quoted) or pattern at pos, wrapped unless exempt.
func (m *M) terminal(e *Env, text, pat string, literal bool, pos int) res {
	rest := m.Src[pos:]
	w := e.wrap()
	if w != nil {
		if alts, ok := w.(parser.Oneof); ok {
			for _, a := range alts[:len(alts)-1] {
				switch a := a.(type) {
				case parser.S:
					if string(a) == text {
						w = nil
					}
				case parser.RE:
					if string(a) == text {
						w = nil
					}
				}
			}
			if w != nil {
				w = alts[len(alts)-1]
			}
		}
	}
	if w == nil && literal {
		if !HasPrefix(rest, text) {
			return failed
		}
		return res{pos + len(text), &T{Tok: true, Lo: pos, Hi: pos + len(text)}, true}
	}
	full := "(?:" + pat + ")"
	if literal {
		full = "(" + pat + ")"
	}
	inner := regexp.MustCompile(full).NumSubexp()
	if w != nil {
		wr := string(w.(parser.RE))
		i := index(wr, "()")
		full = wr[:i] + "(" + full + ")" + wr[i+2:]
	} else {
		full = "(" + full + ")"
	}
	loc := regexp.MustCompile("(?m)^(?:" + full + ")").FindStringSubmatchIndex(rest)
	if loc == nil || loc[0] != 0 {
		return failed
	}
	lo, hi := loc[2], loc[3] // the terminal without the wrapper
	for i := 0; i < inner; i++ {
		if loc[4+2*i] >= 0 { // the first capture group that took part is the token
			lo, hi = loc[4+2*i], loc[5+2*i]
			break
		}
	}
	return res{pos + loc[1], &T{Tok: true, Lo: pos + lo, Hi: pos + hi}, true}
}

func index(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// delim: one or more terms with one separator between neighbours; options for a leading and a trailing one.
func (m *M) delim(e *Env, t parser.Delim, tag string, l *layer, pos int, sc *binding) res {
	var items []*T
	if t.CanStartWithSep {
		if r := m.match(e, t.Sep, "", l, pos, sc); r.ok {
			items = append(items, &T{Empty: true}, r.t)
			pos = r.end
		}
		if m.Stop {
			return failed
		}
	}
	r := m.match(e, t.Term, "", l, pos, sc)
	if !r.ok {
		return failed
	}
	sc = bind(sc, nameOf(t.Term), r.t)
	items = append(items, r.t)
	pos = r.end
	for {
		s := m.match(e, t.Sep, "", l, pos, sc)
		if m.Stop {
			return failed
		}
		if !s.ok {
			break
		}
		r := m.match(e, t.Term, "", l, s.end, bind(sc, nameOf(t.Sep), s.t))
		if m.Stop {
			return failed
		}
		if !r.ok || r.end == pos {
			break
		}
		items = append(items, s.t, r.t)
		pos = r.end
	}
	if t.CanEndWithSep {
		if s := m.match(e, t.Sep, "", l, pos, sc); s.ok {
			items = append(items, s.t, &T{Empty: true})
			pos = s.end
		}
	}
	if m.Stop {
		return failed
	}
	tag = or(tag, ":")
	n := len(items)
	if n > 1 && t.Assoc == parser.LeftToRight {
		v := items[0]
		for i := 1; i < n; i += 2 {
			v = &T{Tag: tag, Extra: t.Assoc, Kids: []*T{v, items[i], items[i+1]}}
		}
		return res{pos, v, true}
	}
	if n > 1 && t.Assoc == parser.RightToLeft {
		v := items[n-1]
		for i := n - 2; i > 0; i -= 2 {
			v = &T{Tag: tag, Extra: t.Assoc, Kids: []*T{items[i-1], items[i], v}}
		}
		return res{pos, v, true}
	}
	return res{pos, &T{Tag: tag, Extra: parser.Associativity(0), Kids: items}, true}
}

// Same asserts that got is the tree want of a parse of src.
func Same(src string, got parser.TreeElement, want *T, what string) { SameAt(src, 0, got, want, what) }

// SameAt is Same for a want whose offsets count from base in src.
func SameAt(src string, base int, got parser.TreeElement, want *T, what string) {
	switch g := got.(type) {
	case parser.Node:
		vsym.Assert(!want.Tok && !want.Empty, what+": node where a token or marker is due")
		vsym.Assert(g.Tag == want.Tag, what+": tag of a node")
		vsym.Assert(g.Extra == want.Extra, what+": choice or associativity of a node")
		vsym.Assert(len(g.Children) == len(want.Kids), what+": number of children")
		for i, k := range want.Kids {
			SameAt(src, base, g.Children[i], k, what)
		}
	case parser.Scanner:
		vsym.Assert(want.Tok, what+": token where a node or marker is due")
		vsym.Assert(g.Offset() == base+want.Lo, what+": offset of a token")
		s := g.String()
		vsym.Assert(len(s) == want.Hi-want.Lo, what+": length of a token")
		vsym.Assert(s == src[base+want.Lo:base+want.Hi], what+": text of a token")
	case parser.Empty:
		vsym.Assert(want.Empty, what+": marker where a token or node is due")
	default:
		vsym.Fail(what + ": foreign tree element")
	}
}

// CheckParse parses src with rule r of g and compares outcome, consumed text and tree with the reference.
func CheckParse(p parser.Parsers, g parser.Grammar, r parser.Rule, src string, what string) (ok bool, end int, te parser.TreeElement, want *T) {
	vsym.Note(func() string { return "grammar: " + g.String() })
	vsym.Note(func() string { return "source: " + strconv.Quote(src) })
	m := &M{Src: src}
	end, want, ok = m.Rule(g, r)
	te, err := p.Parse(r, parser.NewScanner(src))
	CheckOutcome(src, te, err, ok, end, want, what)
	if u, left := err.(parser.UnconsumedInputError); left {
		te = u.Result()
	}
	return
}

// CheckOutcome compares what a parse of src gave with what is due.
func CheckOutcome(src string, te parser.TreeElement, err error, ok bool, end int, want *T, what string) {
	if err == nil {
		vsym.Note(func() string { return "tree: " + te.(interface{ String() string }).String() })
		vsym.Assert(ok, what+": accepts a text the grammar does not describe")
		vsym.Assert(end == len(src), what+": succeeds although input is left")
		Same(src, te, want, what)
		vsym.Cover("parsed")
		return
	}
	vsym.Assert(te == nil, what+": a tree comes with the error")
	u, left := err.(parser.UnconsumedInputError)
	if !ok {
		vsym.Assert(!left, what+": matches a text the grammar does not describe")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(left, what+": refuses a text the grammar describes")
	vsym.Assert(end < len(src), what+": input reported left over although all is consumed")
	vsym.Assert(u.Residue().Offset() == end, what+": consumes more or less than the grammar describes")
	vsym.Assert(u.Residue().String() == src[end:], what+": residue text")
	Same(src, u.Result(), want, what)
	vsym.Cover("left over")
}
