// Package hg is an oracle for grammar text: a reader written after the syntax reference, which says whether a text is
// well-formed and what grammar it denotes.
package hg

import (
	"regexp"
	"strconv"

	"github.com/arr-ai/wbnf/parser"
)

// node is a term as written.
type node struct {
	op     byte // I ident, S literal, R pattern, % back-reference, E external, ! macro call, ( empty, p parentheses, = lookahead, n named, q quantifier, d delimiter, s sequence, | choice, > stack, { nested grammar
	text   string
	kids   []*node
	q      parser.Quant
	d      parser.Delim
	nested []*stmt
}

type stmt struct {
	name   string
	macro  bool
	params []string
	body   *node
}

type reader struct {
	s   string
	i   int
	bad bool
}

func (y *reader) fail() *node {
	y.bad = true
	return &node{op: '('}
}

func (y *reader) space() {
	for y.i < len(y.s) && (y.s[y.i] == ' ' || y.s[y.i] == '\n' || y.s[y.i] == '\t' || y.s[y.i] == '\r') {
		y.i++
	}
}

func (y *reader) at(tok string) bool {
	y.space()
	return len(y.s)-y.i >= len(tok) && y.s[y.i:y.i+len(tok)] == tok
}

func (y *reader) eat(tok string) bool {
	if y.at(tok) {
		y.i += len(tok)
		return true
	}
	return false
}

func (y *reader) need(tok string) {
	if !y.bad && !y.eat(tok) {
		y.bad = true
	}
}

func lower(c byte) bool { return c >= 'a' && c <= 'z' }
func letter(c byte) bool {
	return lower(c) || c >= 'A' && c <= 'Z' || c == '_'
}
func digit(c byte) bool { return c >= '0' && c <= '9' }

func (y *reader) ident() string {
	y.space()
	if y.i < len(y.s) && y.s[y.i] == '@' {
		y.i++
		return "@"
	}
	j := y.i
	if j < len(y.s) && y.s[j] == '.' {
		j++
	}
	start := j
	for j < len(y.s) && (letter(y.s[j]) || j > start && digit(y.s[j])) {
		j++
	}
	if j == start {
		return ""
	}
	id := y.s[y.i:j]
	y.i = j
	return id
}

func (y *reader) number() (int, bool) {
	y.space()
	n, j := 0, y.i
	for ; j < len(y.s) && digit(y.s[j]); j++ {
		n = 10*n + int(y.s[j]-'0')
	}
	ok := j > y.i
	y.i = j
	return n, ok
}

// str reads a literal of any of the three quotes without escapes.
func (y *reader) str() (string, bool) {
	y.space()
	if y.i >= len(y.s) || y.s[y.i] != '"' && y.s[y.i] != '\'' && y.s[y.i] != '`' {
		return "", false
	}
	for j := y.i + 1; j < len(y.s); j++ {
		if y.s[j] == y.s[y.i] {
			t := y.s[y.i+1 : j]
			y.i = j + 1
			return t, true
		}
	}
	return "", false
}

func (y *reader) atom() *node {
	switch {
	case y.eat("(?="):
		n := &node{op: '=', kids: []*node{y.term()}}
		y.need(")")
		return n
	case y.eat("("):
		if y.eat(")") {
			return &node{op: '('}
		}
		n := &node{op: 'p', kids: []*node{y.term()}}
		y.need(")")
		return n
	case y.eat("%!"):
		n := &node{op: '!', text: y.ident()}
		if n.text == "" {
			return y.fail()
		}
		y.need("(")
		for !y.bad {
			if !y.at(",") && !y.at(")") {
				n.kids = append(n.kids, y.term())
			}
			if !y.eat(",") {
				break
			}
		}
		y.need(")")
		return n
	case y.eat("%%"):
		n := &node{op: 'E', text: y.ident()}
		if n.text == "" {
			return y.fail()
		}
		return n
	case y.eat("%"):
		n := &node{op: '%', text: y.ident()}
		if n.text == "" {
			return y.fail()
		}
		if i := y.i; y.eat("=") {
			if s, ok := y.str(); ok {
				n.kids = []*node{{op: 'S', text: s}}
			} else {
				y.i = i
			}
		}
		return n
	}
	if id := y.ident(); id != "" {
		return &node{op: 'I', text: id}
	}
	if s, ok := y.str(); ok {
		return &node{op: 'S', text: s}
	}
	if y.at("/{") {
		for j := y.i + 2; j < len(y.s); j++ {
			switch y.s[j] {
			case '}':
				n := &node{op: 'R', text: dense(y.s[y.i+2 : j])}
				y.i = j + 1
				return n
			case '\\':
				j++
			}
		}
		return y.fail()
	}
	if re := y.bare(); re != "" {
		return &node{op: 'R', text: re}
	}
	return y.fail()
}

func dense(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r' {
			r += s[i : i+1]
		}
	}
	return r
}

// bare reads a pattern without braces: character classes and the like, with regular expression quantifiers.
func (y *reader) bare() string {
	y.space()
	start := y.i
	for y.i < len(y.s) {
		rest := y.s[y.i:]
		n := 0
		switch {
		case rest[0] == '.' || rest[0] == '^' || rest[0] == '$':
			n = 1
		case rest[0] == '\\' && len(rest) > 1 && lower(rest[1]):
			n = 2
		case rest[0] == '[':
			n = Class(rest)
		}
		if n == 0 {
			break
		}
		y.i += n
		if q := bareQuant(y.s[y.i:]); q > 0 {
			y.i += q
			if y.i < len(y.s) && y.s[y.i] == '?' {
				y.i++
			}
		}
	}
	return y.s[start:y.i]
}

// Class returns the length of the class of characters s starts with, 0 if there is none.
func Class(s string) int {
	for j := 1; j < len(s); j++ {
		switch {
		case s[j] == '\\' && j+1 < len(s):
			j++
		case s[j] == ']':
			if j == 1 {
				return 0
			}
			return j + 1
		}
	}
	return 0
}

func bareQuant(s string) int {
	switch {
	case s == "":
		return 0
	case s[0] == '+' || s[0] == '*' || s[0] == '?':
		return 1
	case s[0] == '{':
		i := 1
		for i < len(s) && digit(s[i]) {
			i++
		}
		if i == 1 {
			return 0
		}
		if i < len(s) && s[i] == ',' {
			i++
			if i < len(s) && digit(s[i]) {
				i++
			}
		}
		if i < len(s) && s[i] == '}' {
			return i + 1
		}
	}
	return 0
}

// named reads a term with or without a name.
func (y *reader) named() *node {
	i := y.i
	if name := y.ident(); name != "" && y.eat("=") {
		return &node{op: 'n', text: name, kids: []*node{y.atom()}}
	}
	y.i = i
	return y.atom()
}

func (y *reader) item() *node {
	t := y.named()
	var ops []*node
	for !y.bad {
		op := y.quant()
		if op == nil {
			break
		}
		ops = append(ops, op)
	}
	for i := len(ops); i > 0; i-- {
		ops[i-1].kids = append([]*node{t}, ops[i-1].kids...)
		t = ops[i-1]
	}
	return t
}

func (y *reader) quant() *node {
	q := func(min, max int) *node { return &node{op: 'q', q: parser.Quant{Min: min, Max: max}} }
	d := parser.Delim{}
	i := y.i
	switch {
	case y.eat("?"):
		return q(0, 1)
	case y.eat("*"):
		return q(0, 0)
	case y.eat("+"):
		return q(1, 0)
	case y.eat("{"):
		min, _ := y.number()
		if y.eat(",") {
			max, ok := y.number()
			if y.eat("}") {
				if ok && max == 0 || ok && max < min {
					y.bad = true
				}
				return q(min, max)
			}
		}
		y.i = i
		return nil
	case y.eat("<:"):
		d.Assoc = parser.RightToLeft
	case y.eat(":>"):
		d.Assoc = parser.LeftToRight
	case y.eat(":"):
		d.Assoc = parser.NonAssociative
	default:
		return nil
	}
	d.CanStartWithSep = y.eat(",")
	sep := y.named()
	d.CanEndWithSep = !y.bad && y.eat(",")
	return &node{op: 'd', d: d, kids: []*node{sep}}
}

// ends tells whether no further item of a sequence can follow.
func (y *reader) ends() bool {
	y.space()
	return y.i == len(y.s) || y.at(")") || y.at("|") || y.at(">") || y.at(";") || y.at("{") || y.at("}") || y.at(",")
}

func (y *reader) list(op byte, one func() *node, more func() bool) *node {
	n := &node{op: op, kids: []*node{one()}}
	for !y.bad && more() {
		n.kids = append(n.kids, one())
	}
	if len(n.kids) == 1 {
		return n.kids[0]
	}
	return n
}

func (y *reader) seq() *node {
	return y.list('s', y.item, func() bool { return !y.ends() })
}

func (y *reader) choice() *node {
	return y.list('|', y.seq, func() bool { return y.eat("|") })
}

func (y *reader) layer() *node {
	t := y.choice()
	if !y.bad && y.eat("{") {
		t = &node{op: '{', kids: []*node{t}, nested: y.stmts("}")}
		y.need("}")
	}
	return t
}

func (y *reader) term() *node {
	return y.list('>', y.layer, func() bool { return y.eat(">") })
}

func (y *reader) stmts(end string) []*stmt {
	var ss []*stmt
	for !y.bad {
		y.space()
		if y.i == len(y.s) || end != "" && y.at(end) {
			break
		}
		if y.at("//") {
			for y.i < len(y.s) && y.s[y.i] != '\n' {
				y.i++
			}
			ss = append(ss, nil)
			continue
		}
		s := &stmt{}
		i := y.i
		if s.name = y.ident(); s.name != "" && y.eat("->") {
			s.body = y.list('s', y.term, func() bool { return !y.at(";") })
			y.need(";")
			ss = append(ss, s)
			continue
		}
		y.i = i
		if !y.eat(".macro") {
			y.bad = true
			break
		}
		s.macro = true
		if s.name = y.ident(); s.name == "" {
			y.bad = true
		}
		y.need("(")
		for !y.bad {
			if !y.at(",") && !y.at(")") {
				id := y.ident()
				if id == "" {
					y.bad = true
				}
				s.params = append(s.params, id)
			}
			if !y.eat(",") {
				break
			}
		}
		y.need(")")
		y.need("{")
		if !y.bad {
			s.body = y.term()
		}
		y.need("}")
		if !y.bad {
			y.eat(";")
		}
		ss = append(ss, s)
	}
	if len(ss) == 0 {
		y.bad = true
	}
	return ss
}

// scope is what names mean: rules, and macros with their definitions.
type scope struct {
	known  map[string]*stmt
	params map[string]bool
	calls  []string // macros being expanded
	bad    bool
}

// enter returns the scope within a grammar.
func (sc scope) enter(ss []*stmt) scope {
	in := map[string]*stmt{}
	own := map[string]bool{}
	for n, s := range sc.known {
		in[n] = s
	}
	for _, s := range ss {
		if s == nil {
			continue
		}
		if own[s.name] || s.name == "@" || sc.params[s.name] {
			sc.bad = true
		}
		own[s.name] = true
		in[s.name] = s
	}
	sc.known = in
	return sc
}

// check tells whether the statements of a grammar use names as they may.
func (sc scope) check(ss []*stmt) bool {
	sc = sc.enter(ss)
	if sc.bad {
		return false
	}
	for _, s := range ss {
		if s == nil {
			continue
		}
		in := sc
		if s.macro {
			in.known, in.params = map[string]*stmt{}, map[string]bool{}
			for n, x := range sc.known {
				in.known[n] = x
			}
			for n := range sc.params {
				in.params[n] = true
			}
			for _, p := range s.params {
				if _, has := in.known[p]; has {
					return false
				}
				in.known[p] = &stmt{name: p}
				in.params[p] = true
			}
		}
		if !in.checkTerm(s.body) {
			return false
		}
	}
	return true
}

func (sc scope) checkTerm(n *node) bool {
	switch n.op {
	case 'I':
		if n.text != "@" {
			s, has := sc.known[n.text]
			if !has || s.macro {
				return false
			}
		}
	case 'R':
		if _, err := regexp.Compile(n.text); err != nil {
			return false
		}
	case '!':
		s := sc.known[n.text]
		if s == nil || !s.macro || len(s.params) != len(n.kids) || sc.recursive(s, []string{n.text}) {
			return false
		}
	case 'n':
		if _, has := sc.known[n.text]; has {
			return false
		}
	case 's':
		seen := map[string]bool{}
		for _, k := range n.kids {
			for k.op == 'q' || k.op == 'd' {
				k = k.kids[0]
			}
			if k.op == 'n' {
				if seen[k.text] {
					return false
				}
				seen[k.text] = true
			}
		}
	case '{':
		if !sc.check(n.nested) {
			return false
		}
		sc = sc.enter(n.nested)
	}
	for _, k := range n.kids {
		if !sc.checkTerm(k) {
			return false
		}
	}
	return true
}

// recursive tells whether expanding a macro leads to any macro being expanded.
func (sc scope) recursive(s *stmt, open []string) bool {
	var visit func(n *node) bool
	visit = func(n *node) bool {
		if n.op == '!' {
			for _, o := range open {
				if o == n.text {
					return true
				}
			}
			if m := sc.known[n.text]; m != nil && m.macro && sc.recursive(m, append(append([]string{}, open...), n.text)) {
				return true
			}
		}
		for _, k := range n.kids {
			if visit(k) {
				return true
			}
		}
		for _, in := range n.nested {
			if in != nil && visit(in.body) {
				return true
			}
		}
		return false
	}
	return visit(s.body)
}

// builder makes terms.
type builder struct {
	macros map[string]*stmt
	args   map[string]parser.Term
	bad    bool
}

func (b *builder) grammar(ss []*stmt) parser.Grammar {
	outer := b.macros
	b.macros = map[string]*stmt{}
	for n, s := range outer {
		b.macros[n] = s
	}
	for _, s := range ss {
		if s != nil {
			delete(b.macros, s.name)
			if s.macro {
				b.macros[s.name] = s
			}
		}
	}
	g := parser.Grammar{}
	for _, s := range ss {
		if s != nil && !s.macro {
			g[parser.Rule(s.name)] = b.rule(b.term(s.body))
		}
	}
	return g
}

// rule checks that stacks are where they may be.
func (b *builder) rule(t parser.Term) parser.Term {
	layers := []parser.Term{t}
	if st, ok := t.(parser.Stack); ok {
		layers = st
	}
	for _, l := range layers {
		if stacked(l) {
			b.bad = true
		}
	}
	return t
}

func (b *builder) terms(ns []*node) []parser.Term {
	var ts []parser.Term
	for _, n := range ns {
		ts = append(ts, b.term(n))
	}
	return ts
}

func (b *builder) term(n *node) parser.Term {
	switch n.op {
	case 'I':
		if t, has := b.args[n.text]; has {
			return t
		}
		return parser.Rule(n.text)
	case 'S':
		return parser.S(n.text)
	case 'R':
		return parser.RE(n.text)
	case '%':
		r := parser.REF{Ident: n.text}
		if len(n.kids) > 0 {
			r.Default = b.term(n.kids[0])
		}
		return r
	case 'E':
		return parser.ExtRef(n.text)
	case '(':
		return parser.Seq{}
	case '=':
		return parser.LookAhead{Term: b.term(n.kids[0])}
	case 'n':
		return parser.Named{Name: n.text, Term: b.term(n.kids[0])}
	case 'q':
		q := n.q
		q.Term = b.term(n.kids[0])
		return q
	case 'd':
		d := n.d
		d.Term, d.Sep = b.term(n.kids[0]), b.term(n.kids[1])
		return d
	case 'p':
		return b.term(n.kids[0])
	case 's':
		return parser.Seq(b.terms(n.kids))
	case '|':
		return parser.Oneof(b.terms(n.kids))
	case '>':
		return parser.Stack(b.terms(n.kids))
	case '{':
		macros := b.macros
		g := b.grammar(n.nested) // with the macros of the nested grammar in force for the term, too
		in := *b
		t := in.term(n.kids[0])
		b.bad = in.bad
		b.macros = macros
		return parser.ScopedGrammar{Term: t, Grammar: g}
	case '!':
		s := b.macros[n.text]
		args := map[string]parser.Term{}
		for i, p := range s.params {
			args[p] = b.term(n.kids[i])
		}
		in := builder{macros: b.macros, args: args, bad: b.bad}
		t := in.term(s.body)
		b.bad = in.bad
		return t
	}
	panic("bad node")
}

// stacked tells whether there is a stack somewhere in the term.
func stacked(t parser.Term) bool {
	any := func(ts []parser.Term) bool {
		for _, t := range ts {
			if stacked(t) {
				return true
			}
		}
		return false
	}
	switch t := t.(type) {
	case parser.Stack:
		return true
	case parser.Seq:
		return any(t)
	case parser.Oneof:
		return any(t)
	case parser.Quant:
		return stacked(t.Term)
	case parser.Delim:
		return stacked(t.Term) || stacked(t.Sep)
	case parser.Named:
		return stacked(t.Term)
	case parser.LookAhead:
		return stacked(t.Term)
	case parser.ScopedGrammar:
		return stacked(t.Term)
	}
	return false
}

// Read returns the grammar a text denotes, stacks as such, if the text is well-formed. It does not look for left
// recursion, nor at wrapping patterns.
func Read(text string) (parser.Grammar, bool) {
	y := reader{s: text}
	ss := y.stmts("")
	if y.bad || y.i < len(text) {
		return nil, false
	}
	if !(scope{}).check(ss) {
		return nil, false
	}
	b := builder{}
	g := b.grammar(ss)
	return g, !b.bad
}

// Unstack writes the stacks of a grammar and of those nested in it out: layer i of rule r is rule r@i, whose @ is the
// next layer; in other rules @ is the rule itself.
func Unstack(g parser.Grammar) parser.Grammar {
	r := parser.Grammar{}
	for n, t := range g {
		st, ok := t.(parser.Stack)
		if !ok {
			r[n] = atRule(t, n)
			continue
		}
		name := func(i int) parser.Rule {
			if i %= len(st); i > 0 {
				return n + parser.Rule("@"+strconv.Itoa(i))
			}
			return n
		}
		for i, l := range st {
			r[name(i)] = atRule(l, name(i+1))
		}
	}
	return r
}

// atRule replaces @ in a term.
func atRule(t parser.Term, to parser.Rule) parser.Term {
	list := func(ts []parser.Term) []parser.Term {
		r := []parser.Term{}
		for _, x := range ts {
			r = append(r, atRule(x, to))
		}
		return r
	}
	switch t := t.(type) {
	case parser.Rule:
		if t == parser.At {
			return to
		}
	case parser.Seq:
		return parser.Seq(list(t))
	case parser.Oneof:
		return parser.Oneof(list(t))
	case parser.Delim:
		t.Term, t.Sep = atRule(t.Term, to), atRule(t.Sep, to)
		return t
	case parser.Quant:
		t.Term = atRule(t.Term, to)
		return t
	case parser.Named:
		t.Term = atRule(t.Term, to)
		return t
	case parser.LookAhead:
		t.Term = atRule(t.Term, to)
		return t
	case parser.ScopedGrammar:
		t.Term = atRule(t.Term, to)
		return t
	}
	return t
}

// Syntax tells whether a text consists of statements, whatever they mean.
func Syntax(text string) bool {
	y := reader{s: text}
	y.stmts("")
	return !y.bad && y.i == len(text)
}
