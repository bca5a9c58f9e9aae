package hg

import "github.com/arr-ai/wbnf/parser"

// place is a grammar somewhere in a text.
type place struct {
	rules map[string]*lnode
	up    *place
}

func (p *place) find(name string) *lnode {
	for ; p != nil; p = p.up {
		if n, has := p.rules[name]; has {
			return n
		}
	}
	return nil
}

// lnode is a term as far as left recursion goes.
type lnode struct {
	op    byte // t terminal, s sequence, o choice, ? optional, r rule
	empty bool // can match the empty text, as far as known
	kids  []*lnode
	name  string
	in    *place
}

type left struct {
	rules   []*lnode
	empties map[string]bool // patterns that can match the empty text
}

func (l *left) grammar(g parser.Grammar, up *place) *place {
	p := &place{rules: map[string]*lnode{}, up: up}
	for name, t := range Unstack(g) {
		n := l.term(t, p)
		p.rules[string(name)] = n
		l.rules = append(l.rules, n)
	}
	return p
}

func (l *left) terms(op byte, ts []parser.Term, p *place) *lnode {
	n := &lnode{op: op}
	for _, t := range ts {
		n.kids = append(n.kids, l.term(t, p))
	}
	return n
}

func (l *left) term(t parser.Term, p *place) *lnode {
	opt := func(n *lnode) *lnode { return &lnode{op: '?', kids: []*lnode{n}} }
	switch t := t.(type) {
	case parser.S:
		return &lnode{op: 't', empty: t == ""}
	case parser.RE:
		return &lnode{op: 't', empty: l.empties[string(t)]}
	case parser.REF:
		return &lnode{op: 't', empty: t.Default != nil && t.Default.(parser.S) == ""}
	case parser.ExtRef:
		return &lnode{op: 't'}
	case parser.Rule:
		return &lnode{op: 'r', name: string(t), in: p}
	case parser.Seq:
		return l.terms('s', t, p)
	case parser.Oneof:
		return l.terms('o', t, p)
	case parser.Quant:
		if n := l.term(t.Term, p); t.Min > 0 {
			return n
		} else {
			return opt(n)
		}
	case parser.Named:
		return l.term(t.Term, p)
	case parser.LookAhead:
		return opt(l.term(t.Term, p))
	case parser.Delim:
		a, sep := l.term(t.Term, p), l.term(t.Sep, p)
		n := &lnode{op: 's', kids: []*lnode{a, opt(&lnode{op: 's', kids: []*lnode{sep, a}})}}
		if t.CanStartWithSep {
			n.kids = append([]*lnode{opt(sep)}, n.kids...)
		}
		return n
	case parser.ScopedGrammar:
		return l.term(t.Term, l.grammar(t.Grammar, p))
	case parser.CutPoint:
		return l.term(t.Term, p)
	}
	panic("LeftRecursive: unsupported term")
}

// mayBeEmpty tells whether the term can match the empty text, going by what is known of rules.
func (n *lnode) mayBeEmpty() bool {
	switch n.op {
	case '?':
		return true
	case 't':
		return n.empty
	case 'r':
		r := n.in.find(n.name)
		return r != nil && r.empty
	}
	for _, k := range n.kids {
		if k.mayBeEmpty() != (n.op == 's') {
			return n.op == 'o'
		}
	}
	return n.op == 's'
}

// reach adds the rules that the term can try before it has consumed anything.
func (n *lnode) reach(seen map[*lnode]bool) {
	switch n.op {
	case 'r':
		if r := n.in.find(n.name); r != nil && !seen[r] {
			seen[r] = true
			r.reach(seen)
		}
	case 's':
		for _, k := range n.kids {
			k.reach(seen)
			if !k.mayBeEmpty() {
				break
			}
		}
	default:
		for _, k := range n.kids {
			k.reach(seen)
		}
	}
}

// LeftRecursive tells whether a rule of the grammar or one nested in it can come to itself without consuming anything.
// empties lists the patterns in it that can match the empty text. Names that back-references refer to must not be bound
// to a term that can match the empty text.
func LeftRecursive(g parser.Grammar, empties ...string) bool {
	l := left{empties: map[string]bool{}}
	for _, e := range empties {
		l.empties[e] = true
	}
	l.grammar(g, nil)
	for i := 0; i < len(l.rules); i++ {
		for _, r := range l.rules {
			if r.op != 't' && !r.empty {
				r.empty = r.mayBeEmpty()
			}
		}
	}
	for _, r := range l.rules {
		seen := map[*lnode]bool{}
		r.reach(seen)
		if seen[r] {
			return true
		}
	}
	return false
}
