package c16

import (
	"github.com/arr-ai/wbnf/internal/verif/h"
	"github.com/arr-ai/wbnf/parser"
)

func gen() *h.Gen {
	return &h.Gen{Ops: "soqlnd", NoLit: true, Names: []string{"n", "m"}, Quants: [][2]int{{0, 1}, {2, 0}},
		Leaves: []parser.Term{parser.S("x"), parser.Rule("a"), parser.Rule("b"), parser.Rule("c"), parser.REF{Ident: "n"}},
		Delims: []parser.Delim{{}, {CanStartWithSep: true}}}
}
