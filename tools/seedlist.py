seed("c02-rune-columns", "C02", [("parser/scanner.go", 'col = pos - strings.LastIndex(prefix, "\\n")', 'col = len([]rune(prefix[strings.LastIndex(prefix, "\\n")+1:])) + 1')],
  [W+"parser"], '''
  s := parser.NewScanner("h\\xc3\\xa9llo").Skip(4)
  l, c := s.Position()
  check(l == 1 && c == 5, "position %d:%d", l, c)
  ''', "a multi-byte character before the position on its line", "the column is counted in characters instead of bytes since the last newline")
seed("c03-merge-else", "C03", [("parser/scanner.go", """			l = v.sliceStart
		}
		if v.sliceStart+v.sliceLength > r {""", """			l = v.sliceStart
		} else if v.sliceStart+v.sliceLength > r {""")],
  [W+"parser"], '''
  s := parser.NewScanner("abcdef")
  m, err := parser.MergeScanners(*s.Slice(2, 3), *s.Slice(1, 5))
  check(err == nil && m.String() == "bcde", "merged %q", m.String())
  ''', "a later scanner that starts before and also ends after those merged so far", "the merge is smaller than one of its parts")
seed("c04-quant-eof", "C04", [("parser/parser.go", """	for p.t.Max == 0 || len(result) < p.t.Max {
		if out""", """	for p.t.Max == 0 || len(result) < p.t.Max {
		if len(result) > 0 && start.String() == "" {
			break // nothing left to match
		}
		if out""")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Quant{Term: parser.Opt(parser.S("x")), Min: 2, Max: 3}}
  _, err := g.Compile(nil).Parse("a", parser.NewScanner("x"))
  check(err == nil, "refused")
  ''', "a repetition with a minimum of two or more whose remaining items match the empty text at the end of the input", "a repetition stops at the end of input before its minimum is reached although its term matches empty")
seed("c05-single-trailing", "C05", [("parser/parser.go", "if final != nil && final.(Node).Count() > 0 {", "if final != nil && final.(Node).Count() > 0 && len(result) > 1 {")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), CanEndWithSep: true}}
  e, err := g.Compile(nil).Parse("a", parser.NewScanner("x,"))
  check(err == nil && e.(parser.Node).Count() == 3, "%v %v", e, err)
  ''', "exactly one item, no leading separator, and a trailing separator", "the trailing separator is consumed but missing from the tree")
seed("c06-delim-sep", "C06", [("parser/resolve.go", "	t.Sep = t.Sep.Resolve(oldRule, newRule)\n", "	if _, ok := t.Sep.(Rule); !ok && t.Assoc == NonAssociative {\n		t.Sep = t.Sep.Resolve(oldRule, newRule)\n	}\n")],
  [W+"parser"], '''
  g := parser.Grammar{"e": parser.Stack{parser.Delim{Term: parser.At, Sep: parser.Seq{parser.S("["), parser.At, parser.S("]")}, Assoc: parser.LeftToRight}, parser.RE("[0-9]+")}}
  e, err := g.Compile(nil).Parse("e", parser.NewScanner("1[2]3"))
  check(err == nil && e != nil, "%v %v", e, err)
  ''', "a layer whose separator refers to the current rule, with an associativity", "the current-rule reference in the separator of an associative layer is not resolved to the next layer")
seed("c07-quote-fastpath", "C07", [("parser/parser.go", 'return "(" + regexp.QuoteMeta(re) + ")" }, c)', 'if !strings.ContainsAny(re, `\\.+*?()|[]{}$`) {\n\t\t\treturn "(" + re + ")"\n\t\t}\n\t\treturn "(" + regexp.QuoteMeta(re) + ")"\n\t}, c)')],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.S("x^y")}
  _, err := g.Compile(nil).Parse("a", parser.NewScanner("x^y"))
  check(err == nil, "refused")
  ''', "a literal whose only special character is a caret", "such a literal is compiled unquoted and no longer matches itself")
seed("c08-trim", "C08", [("parser/parser.go", "term = S(n.String())", "term = S(strings.TrimRight(n.String(), \"\\n\"))")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Seq{parser.Named{Name: "n", Term: parser.RE("(?s:.)")}, parser.S(";"), parser.REF{Ident: "n"}}}
  _, err := g.Compile(nil).Parse("a", parser.NewScanner("\\n;\\n"))
  check(err == nil, "refused")
  ''', "a back-reference to a token that ends in a newline", "the back-reference no longer matches the text its name matched")
seed("c09-trailing-space", "C09", [("parser/terms.go", 'if input.String() == "" {', 'if strings.TrimRight(input.String(), "\\n") == "" {')],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.S("x")}
  _, err := g.Compile(nil).Parse("a", parser.NewScanner("x\\n"))
  check(err != nil, "accepted")
  ''', "input left over that consists of newlines only", "parsing succeeds although input is left over")
seed("c10-ref-default", "C10", [("wbnf/cutpoints.go", """		case parser.REF:
			out = out.Merge(forTerm(t.Default), mergeFn)
""", ""), ("wbnf/cutpoints.go", "case parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead: // do nothing", "case parser.RE, parser.Rule, parser.REF, parser.ExtRef, parser.LookAhead: // do nothing")],
  [W+"wbnf", W+"parser"], '''
  p := wbnf.MustCompile(`a -> ("x" "y")? %n="x";`, nil)
  _, err := p.Parse("a", parser.NewScanner("x"))
  check(err == nil, "refused")
  ''', "a literal that occurs once and also as the default of a back-reference", "the literal is committed to although the back-reference's default can match it, too")
seed("c01-ref-token", "C01", [("parser/parser.go", "	*output = v\n	return nil\n}\n\nfunc (t REF) Parser", "	if _, expected, ok := scope.GetVal(t.Ident); ok {\n		v = expected // equal to what was matched\n	}\n	*output = v\n	return nil\n}\n\nfunc (t REF) Parser")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Seq{parser.Named{Name: "n", Term: parser.RE("[a-z]")}, parser.REF{Ident: "n"}}}
  e, err := g.Compile(nil).Parse("a", parser.NewScanner("xx"))
  check(err == nil, "refused")
  check(e.(parser.Node).GetScanner(1).Offset() == 1, "offset %d", e.(parser.Node).GetScanner(1).Offset())
  ''', "a back-reference to a name that has matched", "the token of a back-reference is that of the term referred to, at the wrong place of the source")
seed("c11-pattern-unchecked", "C11", [("wbnf/validation.go", "} else if x := tree.OneRe(); x != nil {", "} else if x := tree.OneRe(); x != nil && regexp.QuoteMeta(x.String()) != `/\\\\` + x.String()[2:] && len(regexp.MustCompile(`[()\\[\\]*+?]`).FindString(x.String())) > 0 {")],
  [W+"wbnf"], '''
  _, err := wbnf.Compile(`a -> /{\\y};`, nil)
  check(err != nil, "accepted")
  ''', "a pattern without groups, classes and repetitions that is not a regular expression, such as one with an unknown escape", "the pattern is not checked, and compiling the grammar crashes")
seed("c12-opt-opt", "C12", [("wbnf/compile.go", "		case \"?\":\n			return parser.Opt(term)", "		case \"?\":\n			if q, ok := term.(parser.Quant); ok && q.Min == 0 {\n				return term // is optional already\n			}\n			return parser.Opt(term)")],
  [W+"wbnf", W+"parser"], '''
  g := wbnf.MustCompile(`a -> "x"?*;`, nil).Grammar()
  q, ok := g["a"].(parser.Quant)
  check(ok, "%v", g)
  _, ok = q.Term.(parser.Quant)
  check(ok, "%v", g)
  ''', "an optional term that is itself a quantified term", "a quantifier is dropped from the term structure")
seed("c13-fake-backquote", "C13", [("wbnf/compile.go", "		return parser.S(parseString(name))\n	case \"RE\":", "		return parser.S(unfakeBackquote(parseString(name)))\n	case \"RE\":")],
  [W+"wbnf", W+"parser"], '''
  g := wbnf.MustCompile("a -> \\"\\u2035\\";", nil).Grammar()
  t := g["a"]
  if c, ok := t.(parser.CutPoint); ok { t = c.Term }
  check(t == parser.S("\\u2035"), "%v", t)
  ''', "a literal that contains the character U+2035", "the character is replaced by a back-quote")
seed("c14-nested-args", "C14", [("wbnf/compile.go", "	g := parser.Grammar{}\n	tree := NewGrammarNode(node)\n	for _, stmt := range tree.AllStmt() {\n		if prod", "	g := parser.Grammar{}\n	tree := NewGrammarNode(node)\n	gb.args = nil // a rule has none\n	for _, stmt := range tree.AllStmt() {\n		if prod")],
  [W+"wbnf", W+"parser"], '''
  p, err := wbnf.Compile(`.macro M(p) { b { b -> p "!"; } } a -> %!M("x");`, nil)
  check(err == nil, "refused")
  _, err = p.Parse("a", parser.NewScanner("x!"))
  check(err == nil, "%v", err)
  ''', "a macro whose body contains a nested grammar that uses a parameter", "the parameter is not replaced inside the rules of the nested grammar")
seed("c15-first-wins", "C15", [("wbnf/compile.go", "	if err := validate(node); err != nil {\n		return parser.Parsers{}, err\n	}\n	return NewFromAst", "	if resolver != nil {\n		// a file may be imported under several paths\n		defined := map[string]bool{}\n		var stmts ast.Many\n		for _, stmt := range node.AllStmt() {\n			if prod := stmt.OneProd(); prod != nil {\n				if name := prod.OneIdent().String(); defined[name] {\n					continue\n				} else {\n					defined[name] = true\n				}\n			}\n			stmts = append(stmts, stmt.Node)\n		}\n		node.Node.(ast.Branch)[\"stmt\"] = stmts\n	}\n	if err := validate(node); err != nil {\n		return parser.Parsers{}, err\n	}\n	return NewFromAst")],
  [W+"wbnf", "path/filepath"], '''
  d, err := os.MkdirTemp("", "demo")
  check(err == nil, "%v", err)
  defer os.RemoveAll(d)
  os.WriteFile(d+"/b", []byte(`a -> "y";`), 0o600)
  _, err = wbnf.Compile(".import b\\na -> \\"x\\";", resolver(d))
  os.RemoveAll(d)
  check(err != nil, "accepted")
}

type resolver string

func (r resolver) Resolve(from, path string) string {
  return filepath.Join(string(r), path)
''', "a rule defined differently in an imported file, and a resolver", "two definitions of one rule are not refused: the first one wins")
seed("c16-adjacent-names", "C16", [("wbnf/validation.go", "					names[x] = true\n				}\n			}", "					names = map[string]bool{x: true}\n				}\n			}")],
  [W+"wbnf"], '''
  _, err := wbnf.Compile(`a -> n="x" m="z" n="y";`, nil)
  check(err != nil, "accepted")
  ''', "the same name used twice in a sequence with another name in between", "the clash is not noticed")
seed("c17-choice-order", "C17", [("ast/from_parsernode.go", "		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})\n		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])\n", "		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])\n		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})\n")],
  [W+"parser", W+"ast"], '''
  g := parser.Grammar{"a": parser.Oneof{parser.S("x"), parser.Oneof{parser.S("y"), parser.S("z")}}}
  e, err := g.Compile(nil).Parse("a", parser.NewScanner("y"))
  check(err == nil, "refused")
  b := ast.FromParserNode(g, e)
  check(ast.Choice(b) == 1, "%v", b)
  ''', "an unnamed choice inside a choice", "the inner choice is recorded before the outer one")
seed("c18-lookahead-label", "C18", [("ast/to_parsernode.go", "	if n, ok := e.(parser.Node); ok {\n		n.Tag = name", "	if n, ok := e.(parser.Node); ok && n.Tag != lookaheadTag {\n		n.Tag = name")],
  [W+"parser", W+"ast"], '''
  g := parser.Grammar{"a": parser.Seq{parser.Named{Name: "n", Term: parser.LookAhead{Term: parser.S("y")}}, parser.S("y")}}
  e, err := g.Compile(nil).Parse("a", parser.NewScanner("y"))
  check(err == nil, "refused")
  back := ast.ToParserNode(g, ast.FromParserNode(g, e))
  check(fmt.Sprint(back) == fmt.Sprint(e), "%v became %v", e, back)
  ''', "a name for a lookahead, or a rule that is one", "the node gets the tag of an unnamed lookahead")
seed("c19-fold", "C19", [("ast/node.go", "return l.Scanner().String() == other.Scanner().String()", "a, b := l.Scanner(), other.Scanner()\n		return a.String() == b.String() || a.Offset() == b.Offset() && strings.EqualFold(a.String(), b.String())"), ("ast/node.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')],
  [W+"parser", W+"ast"], '''
  check(!ast.Leaf(*parser.NewScanner("a")).ContentEquals(ast.Leaf(*parser.NewScanner("A"))), "equal")
  ''', "two leaves at the same offset whose texts differ in case only", "comparing by content ignores case")
seed("c20-quant-error", "C20", [("parser/unparse.go", "	for _, child := range e.(Node).Children {\n		if err = unparse(g, t.Term, child, w, &n); err != nil {\n			return\n		}\n	}\n	return\n", "	for _, child := range e.(Node).Children {\n		if err = unparse(g, t.Term, child, w, &n); err != nil {\n			break\n		}\n	}\n	return n, nil\n")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Some(parser.S("x"))}
  e, err := g.Compile(nil).Parse("a", parser.NewScanner("xx"))
  check(err == nil, "refused")
  _, err = g.Unparse(e, failing{})
  check(err != nil, "no error")
}

type failing struct{}

func (failing) Write(p []byte) (int, error) {
  return 0, fmt.Errorf("full")
''', "a writer that fails inside a repetition", "the error is lost")
seed("c21-ref-cache", "C21", [("parser/parser.go", "		term := termFromRefVal(expected)\n		parser := term.Parser(Rule(t.Ident), cache{})\n", "		term, has := refTerms.Load(t)\n		if !has {\n			term = termFromRefVal(expected)\n			if _, token := expected.(Scanner); !token {\n				refTerms.Store(t, term) // expensive to rebuild\n			}\n		}\n		parser := term.(Term).Parser(Rule(t.Ident), cache{})\n"), ("parser/parser.go", "func (t *REF) Parse(", "var refTerms sync.Map // by *REF\n\nfunc (t *REF) Parse("), ("parser/parser.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Seq{parser.Named{Name: "n", Term: parser.Seq{parser.RE("[a-z]")}}, parser.REF{Ident: "n"}}}
  p := g.Compile(nil)
  for _, text := range []string{"xx", "yy"} {
  	_, err := p.Parse("a", parser.NewScanner(text))
  	check(err == nil, "%q refused", text)
  }
  ''', "two parses in which a back-reference refers to different values that are not single tokens", "the second parse matches the value of the first one")
seed("c22-key-order", "C22", [("parser/terms.go", "	sort.Strings(keys)\n", "	sort.SliceStable(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })\n")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.S("x"), "A": parser.S("y")}
  s := g.String()
  for i := 0; i < 1000; i++ {
  	check(g.String() == s, "%s, then %s", s, g.String())
  }
  ''', "two rules whose names differ in case only", "the order of the rules in the rendered grammar is random")
seed("c23-wrap-exempt", "C23", [("parser/parser.go", "			t.Grammar[WrapRE] = wrap\n", "			if oneof, ok := wrap.(Oneof); ok && len(t.Grammar) > 1 {\n				wrap = oneof[len(oneof)-1]\n			}\n			t.Grammar[WrapRE] = wrap\n")],
  [W+"parser"], '''
  g := parser.Grammar{
  	".wrapRE": parser.Oneof{parser.S("x"), parser.RE(`\\s*()`)},
  	"a": parser.ScopedGrammar{Term: parser.Rule("b"), Grammar: parser.Grammar{"b": parser.Rule("c"), "c": parser.S("x")}},
  }
  _, err := g.Compile(nil).Parse("a", parser.NewScanner(" x"))
  check(err != nil, "accepted")
  ''', "a wrapping pattern with exemptions and a nested grammar of several rules", "the exemptions do not apply in the nested grammar")
seed("c24-ref-escape", "C24", [("parser/parser.go", "	if escaped, err := parseEscape(t, scope, \"\", nil, input, output); escaped || err != nil {\n		return err\n	}\n	stk = stk.push(t.Ident, t.AsTerm())", "	stk = stk.push(t.Ident, t.AsTerm())")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Seq{parser.Named{Name: "n", Term: parser.S("x")}, parser.REF{Ident: "n"}}}
  _, err := g.Compile(nil).ParseWithExternals("a", parser.NewScanner("x<z>"), parser.ExternalRefs{
  	"*<()>": func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
  		var eaten parser.Scanner
  		input.EatString("z", &eaten)
  		return eaten, nil
  	},
  })
  check(err == nil, "refused: %v", err)
  ''', "an escape in the place of a back-reference", "the escape's result does not replace the back-reference")
seed("c25-at-rule", "C25", [("cmd/codegen/grammar.go", "		if t.Min == 0 && t.Max == 0 {\n			node.name = \"parser.Any\"", "		if t.Min == 0 && t.Max < 1 || t.Min == t.Max && t.Min < 1 {\n			node.name = \"parser.Any\""), ("cmd/codegen/grammar.go", "		} else if t.Min == 1 && t.Max == 0 {", "		} else if t.Min == 1 && t.Max <= 1 {")],
  [W+"parser", W+"cmd/codegen", "strings"], '''
  s := codegen.MakeGrammarString(parser.Grammar{"a": parser.Quant{Term: parser.S("x"), Min: 1, Max: 1}}).String()
  check(!strings.Contains(s, "parser.Some"), "%s", s)
  ''', "the quantifier {1,1}", "it is written as one or more")
seed("c27-same-text", "C27", [("parser/diff/terms.go", "			if td := Terms(aTerm, bTerm); !td.Equal() {\n				diff.Prods", "			if td := Terms(aTerm, bTerm); aTerm.String() != bTerm.String() && !td.Equal() {\n				diff.Prods")],
  [W+"parser", W+"parser/diff"], '''
  a := parser.Grammar{"a": parser.Quant{Term: parser.Seq{parser.S("x")}, Min: 1}}
  b := parser.Grammar{"a": parser.Seq{parser.S("x")}}
  check(!diff.Grammars(a, b).Equal(), "equal")
  a = parser.Grammar{"a": parser.Oneof{parser.S("x"), parser.Oneof{parser.S("y"), parser.S("z")}}}
  b = parser.Grammar{"a": parser.Oneof{parser.S("x"), parser.S("y"), parser.S("z")}}
  check(!diff.Grammars(a, b).Equal(), "equal")
  ''', "two rules of different structure that print alike, such as nested choices or a name for a repetition and a repetition of a name", "they are reported equal")
seed("c28-rank", "C28", [("gotree/gotree.go", "		if r > iRank {", "		if r > iRank && iRank >= 0 {")],
  [W+"gotree"], '''
  t := gotree.New("root")
  x := gotree.New("x")
  x.Add("plain")
  x.Add("5")
  t.AddTree(gotree.New("3"))
  t.AddTree(x)
  t.SortItems()
  check(t.Items()[0].Text() == "x", "%s", t.Print())
  ''', "an item without a number that has both numbered items and items without number", "it is ranked by the numbered ones only")
seed("c29-seq-stop", "C29", [("parser/error.go", "	switch err.(type) {\n	case FatalError, StopError:\n		return true\n	}\n	return false", "	_, fatal := err.(FatalError)\n	return fatal")],
  [W+"parser"], '''
  g := parser.Grammar{"a": parser.Oneof{parser.Seq{parser.S("x"), parser.ExtRef("e")}, parser.S("x")}}
  _, err := g.Compile(nil).ParseWithExternals("a", parser.NewScanner("x"), parser.ExternalRefs{
  	"e": func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) { return nil, stop{} },
  })
  check(err == stop{}, "%v", err)
}

type stop struct{}

func (stop) Error() string { return "stop" }
func (stop) IsStopError()  {
''', "a handler in a sequence that requests a stop", "the request is wrapped in an ordinary parse error, and the enclosing choice goes on")
