From b33a80b61a12a7defa906faa28909a412e6eedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:49 +0000
Subject: [PATCH 01/37] fix: stop an unbounded repetition of an empty match

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..c4c939b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -574,6 +574,9 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			}
 			break
 		}
+		if p.t.Max == 0 && len(result) >= p.t.Min && start.Offset() == input.Offset() {
+			break // further empty matches would repeat forever
+		}
 		result = append(result, v)
 		*input = start
 	}
-- 
2.43.0


From 9083b4a44ef2cc5deaf9dc3ab0a795b8c277ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:14 +0000
Subject: [PATCH 02/37] fix: let a rule be a named reference, or a reference to
 a rule of an enclosing grammar

---
 parser/parser.go | 58 ++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c4c939b..777c819 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -48,6 +48,39 @@ func (c cache) makeParsers(terms []Term) []Parser {
 	return parsers
 }
 
+// makeRules builds the parsers of all rules of the grammar. A rule that merely
+// refers to another one gets the parser of that rule, unless the latter belongs
+// to an enclosing grammar.
+func (c cache) makeRules() {
+	for rule, term := range c.grammar {
+		for {
+			r, ok := term.(Rule)
+			if !ok {
+				break
+			}
+			next, has := c.grammar[r]
+			if !has {
+				break
+			}
+			term = next
+		}
+		c.parsers[rule] = term.Parser(rule, c)
+	}
+	for rule := range c.parsers {
+		for range c.parsers {
+			r, ok := c.parsers[rule].(ruleParser)
+			if !ok {
+				break
+			}
+			next, has := c.parsers[r.t]
+			if !has {
+				break
+			}
+			c.parsers[rule] = next
+		}
+	}
+}
+
 func ruleOrAlt(rule Rule, alt Rule) Rule {
 	if rule == "" {
 		return alt
@@ -109,17 +142,7 @@ func (g Grammar) Compile(node any) Parsers {
 		grammar:    g,
 		rulePtrses: map[Rule][]*Parser{},
 	}
-	for rule, term := range g {
-		for {
-			switch r := term.(type) {
-			case Rule:
-				term = g[r]
-				continue
-			}
-			break
-		}
-		c.parsers[rule] = term.Parser(rule, c)
-	}
+	c.makeRules()
 
 	for rule, rulePtrs := range c.rulePtrses {
 		p := c.parsers[rule]
@@ -762,17 +785,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		grammar:    t.Grammar,
 		rulePtrses: map[Rule][]*Parser{},
 	}
-	for rule, term := range t.Grammar {
-		for {
-			switch r := term.(type) {
-			case Rule:
-				term = t.Grammar[r]
-				continue
-			}
-			break
-		}
-		cc.parsers[rule] = term.Parser(rule, cc)
-	}
+	cc.makeRules()
 
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
@@ -785,6 +798,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
+				c.registerRule(rulePtr) // in case p is just a reference to an enclosing rule
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
-- 
2.43.0


From f0aa672478de137b00cfacfa1aff66495a13bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:10 +0000
Subject: [PATCH 03/37] fix: pick a capture group that took part in the match
 as the token

---
 parser/parser.go  | 15 ++++++++++++---
 parser/scanner.go |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 777c819..e1a2fdb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -217,9 +217,18 @@ func getErrorStrings(input *Scanner) string {
 }
 
 func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
-	var eaten [2]Scanner
-	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
-		*output = eaten[n-1]
+	eaten := make([]Scanner, re.NumSubexp())
+	if _, ok := input.EatRegexp(re, nil, eaten); ok {
+		// The first group is the whole terminal. If the terminal has groups of
+		// its own, the first one that took part in the match is the token.
+		token := eaten[0]
+		for _, group := range eaten[1:] {
+			if !group.IsNil() {
+				token = group
+				break
+			}
+		}
+		*output = token
 		return true
 	}
 	return false
diff --git a/parser/scanner.go b/parser/scanner.go
index eb6334f..37e74c9 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -197,6 +197,10 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 			captures = captures[:n]
 		}
 		for i := range captures {
+			if loc[2*i] < 0 {
+				captures[i] = Scanner{} // the group took no part in the match
+				continue
+			}
 			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
 		}
 
-- 
2.43.0


From 99fa20e1d104b1c9033584b3ad1d126644e509b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 04/37] fix: do not commit to a rule that is merely a unique
 literal

The rule may be referred to from several alternatives, so having matched its
literal does not rule the others out.
---
 parser/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e1a2fdb..628dcea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -387,7 +387,7 @@ func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk
 				func() error { return stk },
 			)
 		}
-		if _, ok := item.(*cutPointParser); ok {
+		if isCutPoint(p.t[i]) {
 			scope, _, _ = scope.ReplaceCutPoint(true)
 		}
 		scope = scope.WithVal(ident, p.parsers[i], v)
@@ -819,6 +819,18 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	return result
 }
 
+// isCutPoint tells whether the term is itself a cut point. A reference to a rule
+// which is one isn't, since the rule may be referred to from elsewhere, too.
+func isCutPoint(t Term) bool {
+	switch t := t.(type) {
+	case CutPoint:
+		return true
+	case Named:
+		return isCutPoint(t.Term)
+	}
+	return false
+}
+
 type cutPointParser struct {
 	p Parser
 	t CutPoint
-- 
2.43.0


From 4aa1a2616fd19c0aa913440caa9bd4dbc10f909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 05/37] fix: count trailing separators and nested literals when
 looking for unique ones

A literal that is also tried as a trailing separator, or that occurs several
times in a nested grammar, was taken for unique and became a cut point.
Regenerated the core grammar accordingly.
---
 wbnf/cutpoints.go   | 11 +++++------
 wbnf/wbnfgrammar.go |  6 +++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..37545a3 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -85,8 +85,8 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		case parser.Delim:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 			out = out.Merge(forTerm(t.Sep), mergeFn)
-			if t.CanStartWithSep {
-				// ensure that a starting sep will never be a cutpoint
+			if t.CanStartWithSep || t.CanEndWithSep {
+				// ensure that a starting or trailing sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
 		case parser.Quant:
@@ -95,10 +95,9 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			for _, t := range t.Grammar {
+				out = out.Merge(forTerm(t), mergeFn)
+			}
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..d9d1f87 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From 9dcb483b9e8072c8b0e11087899b741b3acb9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 06/37] fix: compare the tokens, element types and external
 references of terms and trees

---
 parser/diff/nodes.go | 43 ++++++++++++++++++++++++++++++-------------
 parser/diff/terms.go | 31 +++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..0c37281 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -13,6 +13,7 @@ type NodeDiff struct {
 	A, B     *parser.Node
 	Children map[int]NodeDiff
 	Types    map[int][2]reflect.Type
+	Tokens   map[int][2]string
 }
 
 func (d NodeDiff) String() string {
@@ -32,45 +33,60 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if d.A.Tag != d.B.Tag {
 		fmt.Fprintf(w, "%sTag: %v != %v", prefix, d.A.Tag, d.B.Tag)
 	}
-	if d.A.Extra != d.B.Extra {
+	if !reflect.DeepEqual(d.A.Extra, d.B.Extra) {
 		fmt.Fprintf(w, "%sExtra: %v != %v", prefix, d.A.Extra, d.B.Extra)
 	}
 	if len(d.A.Children) != len(d.B.Children) {
 		fmt.Fprintf(w, "%slen(Children): %v != %v", prefix, len(d.A.Children), len(d.B.Children))
 	}
-	for i, t := range d.Types {
-		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
-	}
-	for i, d := range d.Children {
-		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+	for i := range d.A.Children {
+		if t, has := d.Types[i]; has {
+			fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
+		}
+		if t, has := d.Tokens[i]; has {
+			fmt.Fprintf(w, "%sChildren[%d]: %q != %q", prefix, i, t[0], t[1])
+		}
+		if d, has := d.Children[i]; has {
+			d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+		}
 	}
 }
 
 func (d NodeDiff) Equal() bool {
 	return len(d.A.Children) == len(d.B.Children) &&
 		d.A.Tag == d.B.Tag &&
-		d.A.Extra == d.B.Extra &&
+		reflect.DeepEqual(d.A.Extra, d.B.Extra) &&
 		len(d.Children) == 0 &&
-		len(d.Types) == 0
+		len(d.Types) == 0 &&
+		len(d.Tokens) == 0
 }
 
 func NewNodeDiff(a, b *parser.Node) NodeDiff {
 	children := map[int]NodeDiff{}
 	types := map[int][2]reflect.Type{}
+	tokens := map[int][2]string{}
 	n := len(a.Children)
 	if n > len(b.Children) {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		y := b.Children[i]
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(y)
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
-		} else if childNodeA, ok := x.(parser.Node); ok {
-			childNodeB := b.Children[i].(parser.Node)
-			if d := NewNodeDiff(&childNodeA, &childNodeB); !d.Equal() {
+			continue
+		}
+		switch x := x.(type) {
+		case parser.Node:
+			y := y.(parser.Node)
+			if d := NewNodeDiff(&x, &y); !d.Equal() {
 				children[i] = d
 			}
+		case parser.Scanner:
+			if s, t := x.String(), y.(parser.Scanner).String(); s != t {
+				tokens[i] = [2]string{s, t}
+			}
 		}
 	}
 	return NodeDiff{
@@ -78,5 +94,6 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		B:        b,
 		Children: children,
 		Types:    types,
+		Tokens:   tokens,
 	}
 }
diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..d505914 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -56,11 +56,6 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
-	if diff.Equal() != reflect.DeepEqual(a, b) {
-		panic(fmt.Sprintf(
-			"diff.Equal() == %v != %v == reflect.DeepEqual(a, b): %#v\n%#v\n%#v",
-			diff.Equal(), reflect.DeepEqual(a, b), diff, a, b))
-	}
 	return diff
 }
 
@@ -79,6 +74,9 @@ func (d TypesDiffer[T]) Equal() bool {
 }
 
 func Terms(a, b parser.Term) TermDiff {
+	if a == nil || b == nil {
+		return diffNils(a, b)
+	}
 	if reflect.TypeOf(a) != reflect.TypeOf(b) {
 		return TypesDiffer[string]{
 			InterfaceDiff: diffInterfaces(
@@ -111,7 +109,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
@@ -123,6 +121,22 @@ func Terms(a, b parser.Term) TermDiff {
 
 //-----------------------------------------------------------------------------
 
+// NilDiff is the difference of two terms at least one of which is missing, such
+// as the default of a reference.
+type NilDiff struct {
+	A, B parser.Term
+}
+
+func (d NilDiff) Equal() bool {
+	return d.A == nil && d.B == nil
+}
+
+func diffNils(a, b parser.Term) NilDiff {
+	return NilDiff{A: a, B: b}
+}
+
+//-----------------------------------------------------------------------------
+
 type RuleDiff struct {
 	A, B parser.Rule
 }
@@ -170,10 +184,7 @@ type RefDiff struct {
 }
 
 func (d RefDiff) Equal() bool {
-	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
-	}
-	return false
+	return d.A.Ident == d.B.Ident && Terms(d.A.Default, d.B.Default).Equal()
 }
 
 func diffRefs(a, b parser.REF) RefDiff {
-- 
2.43.0


From c66cf99c0d2e7d33aae874cfd33c7cedf078216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 07/37] fix: rank items that start with a number too big for an
 int

---
 gotree/gotree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..b19fdd4 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -88,10 +88,8 @@ func (t *tree) SortItems() {
 func (t *tree) Rank() int {
 	num := regexp.MustCompile("^[1-9][0-9]*").Find([]byte(t.Text()))
 	if num != nil {
-		r, err := strconv.Atoi(string(num))
-		if err != nil {
-			panic(err)
-		}
+		// A number too big for an int yields the biggest int.
+		r, _ := strconv.Atoi(string(num))
 		return r
 	}
 	if len(t.Items()) == 0 {
-- 
2.43.0


From ed02b3410c803ceba5c2665ff7fd98ac4aecdbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 08/37] fix: tell a single child from an empty list when
 comparing content

---
 ast/node.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index 46b9c30..d4cd064 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -195,12 +195,13 @@ func (b Branch) ContentEquals(other Node) bool {
 		for k, v := range b {
 			switch v := v.(type) {
 			case One:
-				if !v.Node.ContentEquals(other.One(k)) {
+				otherNode, ok := other[k].(One)
+				if !ok || !v.Node.ContentEquals(otherNode.Node) {
 					return false
 				}
 			case Many:
-				otherNodes := other.Many(k)
-				if len(v) != len(otherNodes) {
+				otherNodes, ok := other[k].(Many)
+				if !ok || len(v) != len(otherNodes) {
 					return false
 				}
 				for i, n := range v {
-- 
2.43.0


From 17a818d3e2a4e41493de70926dd923591543ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 09/37] fix: take the text of a list whose first items hold no
 tokens

---
 ast/node_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/node_string.go b/ast/node_string.go
index bd19985..56590a7 100644
--- a/ast/node_string.go
+++ b/ast/node_string.go
@@ -117,7 +117,9 @@ func (c One) Scanner() parser.Scanner {
 func (c Many) Scanner() parser.Scanner {
 	childrenScanners := make([]parser.Scanner, 0, len(c))
 	for _, n := range c {
-		childrenScanners = append(childrenScanners, n.Scanner())
+		if s := n.Scanner(); !s.IsNil() {
+			childrenScanners = append(childrenScanners, s)
+		}
 	}
 
 	if len(childrenScanners) > 0 {
-- 
2.43.0


From 7581469ca5a9b5a4e370da21a954c5b515ed05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 10/37] fix: generate literals and patterns that Go source
 cannot hold verbatim

---
 cmd/codegen/grammar.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..04ae08b 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -3,7 +3,9 @@ package codegen
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/frozen"
 
@@ -44,9 +46,14 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
-func safeString(src string) string {
+// goString writes src as a Go string expression.
+func goString(src string) string {
+	// Go source can't hold these characters, and raw strings drop carriage returns.
+	if !utf8.ValidString(src) || strings.ContainsAny(src, "\x00\r\ufeff") {
+		return strconv.Quote(src)
+	}
 	r := strings.NewReplacer("`", "`+\"`\"+`")
-	return r.Replace(src)
+	return "`" + r.Replace(src) + "`"
 }
 
 func prefixName(prefix string, node GoNode) GoNode {
@@ -82,7 +89,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.children = append(node.children, walkTerm(t))
 		}
 	case parser.S:
-		node.name = fmt.Sprintf("parser.S(`%s`)", safeString(string(t)))
+		node.name = fmt.Sprintf("parser.S(%s)", goString(string(t)))
 	case parser.Delim:
 		node.name = "parser.Delim"
 		node.scope = squigglyScope
@@ -141,7 +148,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.Add(prefixName("Default: ", walkTerm(t.Default)))
 		}
 	case parser.RE:
-		node = stringNode("parser.RE(`%s`)", safeString(string(t)))
+		node = stringNode("parser.RE(%s)", goString(string(t)))
 	case parser.Rule:
 		if strings.Contains(string(t), parser.StackDelim) {
 			node = stringNode("parser.At")
@@ -153,7 +160,7 @@ func walkTerm(term parser.Term) GoNode {
 		node.scope = squigglyScope
 		node.Add(walkTerm(t.Term))
 	case parser.ExtRef:
-		node = stringNode("parser.ExtRef(`%s`)", safeString(string(t)))
+		node = stringNode("parser.ExtRef(%s)", goString(string(t)))
 	case parser.LookAhead:
 		node.name = "parser.LookAhead"
 		node.scope = squigglyScope
-- 
2.43.0


From 990e6482fe2b9f0eb2f3cffe7def01c34aeedddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 11/37] fix: generate valid Go for bounded quantifiers

---
 cmd/codegen/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 04ae08b..416ef72 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -110,19 +110,22 @@ func walkTerm(term parser.Term) GoNode {
 			node.Add(stringNode("Assoc: parser.RightToLeft"))
 		}
 	case parser.Quant:
-		node.Add(walkTerm(t.Term))
 		if t.Min == 0 && t.Max == 0 {
 			node.name = "parser.Any"
 			node.scope = bracesScope
+			node.Add(walkTerm(t.Term))
 		} else if t.Min == 1 && t.Max == 0 {
 			node.name = "parser.Some"
 			node.scope = bracesScope
+			node.Add(walkTerm(t.Term))
 		} else if t.Min == 0 && t.Max == 1 {
 			node.name = "parser.Opt"
 			node.scope = bracesScope
+			node.Add(walkTerm(t.Term))
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
+			node.Add(prefixName("Term: ", walkTerm(t.Term)))
 			node.Add(stringNode("Min: %d", t.Min))
 			node.Add(stringNode("Max: %d", t.Max))
 		}
-- 
2.43.0


From 61c699062a29d2259a6ce31e0c30bbb2f74598f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 12/37] fix: tag the tree of a rule with the rule's name if its
 body is named, too

---
 parser/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 628dcea..6bb937e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -49,12 +49,12 @@ func (c cache) makeParsers(terms []Term) []Parser {
 }
 
 // makeRules builds the parsers of all rules of the grammar. A rule that merely
-// refers to another one gets the parser of that rule, unless the latter belongs
-// to an enclosing grammar.
+// refers to another one, perhaps under a name, gets a parser of its own for the
+// body of that rule, unless the latter belongs to an enclosing grammar.
 func (c cache) makeRules() {
 	for rule, term := range c.grammar {
 		for {
-			r, ok := term.(Rule)
+			r, ok := unnamed(term).(Rule)
 			if !ok {
 				break
 			}
@@ -81,6 +81,16 @@ func (c cache) makeRules() {
 	}
 }
 
+func unnamed(term Term) Term {
+	for {
+		named, ok := term.(Named)
+		if !ok {
+			return term
+		}
+		term = named.Term
+	}
+}
+
 func ruleOrAlt(rule Rule, alt Rule) Rule {
 	if rule == "" {
 		return alt
@@ -696,7 +706,7 @@ func (t Stack) Term() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t Named) Parser(rule Rule, c cache) Parser {
-	return t.Term.Parser(Rule(t.Name), c)
+	return t.Term.Parser(ruleOrAlt(rule, Rule(t.Name)), c)
 }
 func (t Named) AsTerm() Term { return t }
 
-- 
2.43.0


From 9fce53f060779fc27cb5bf43c593728d6ec39646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:15 +0000
Subject: [PATCH 13/37] fix: unparse references, nested grammars, empty
 separators and nested delimiters

---
 parser/parser.go  | 37 ++++++++++++++++++++++--------
 parser/terms.go   | 10 +++++----
 parser/unparse.go | 57 ++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 78 insertions(+), 26 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6bb937e..a80abc5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -120,6 +120,19 @@ func (g Grammar) clone() Grammar {
 	return clone
 }
 
+// ResolveStacks returns the grammar with its stacks written out as rules, one
+// per layer: the grammar itself if it has none, a copy otherwise.
+func (g Grammar) ResolveStacks() Grammar {
+	for _, term := range g {
+		if _, ok := term.(Stack); ok {
+			g = g.clone()
+			g.resolveStacks()
+			break
+		}
+	}
+	return g
+}
+
 func (g Grammar) resolveStacks() {
 	for rule, term := range g {
 		if stack, ok := term.(Stack); ok {
@@ -139,13 +152,7 @@ func (g Grammar) resolveStacks() {
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
-	for _, term := range g {
-		if _, ok := term.(Stack); ok {
-			g = g.clone()
-			g.resolveStacks()
-			break
-		}
-	}
+	g = g.ResolveStacks()
 
 	c := cache{
 		parsers:    map[Rule]Parser{},
@@ -541,13 +548,25 @@ func (l *LRTGen) Next() Term {
 	return out
 }
 
+// LRTerms generates the terms of the children of a node parsed with t. Of the
+// first child of a left-associative node and the last child of a
+// right-associative one, it tells whether that is a nested node of t.
 func (t Delim) LRTerms(node Node) LRTGen {
 	associativity := node.Extra.(Associativity)
+	outer := func(i int) Term {
+		if i < len(node.Children) {
+			n, ok := node.Children[i].(Node)
+			if ok && n.Tag == node.Tag && n.Extra == node.Extra {
+				return t
+			}
+		}
+		return t.Term
+	}
 	switch {
 	case associativity < 0:
-		return LRTGen{sides: [2]Term{t.Term, t}, sep: t.Sep}
+		return LRTGen{sides: [2]Term{t.Term, outer(2)}, sep: t.Sep}
 	case associativity > 0:
-		return LRTGen{sides: [2]Term{t, t.Term}, sep: t.Sep}
+		return LRTGen{sides: [2]Term{outer(0), t.Term}, sep: t.Sep}
 	}
 	return LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
 }
diff --git a/parser/terms.go b/parser/terms.go
index 0142725..11fab53 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -16,11 +16,13 @@ func NodeRule(e Node) Rule {
 type Grammar map[Rule]Term
 
 // Unparse inverts the action of a parser, taking a generated AST and producing
-// the source it came from. Currently, it doesn't quite do that, and is only
-// being used for quick eyeballing to validate output.
+// the tokens it was made of.
 func (g Grammar) Unparse(e TreeElement, w io.Writer) (n int, err error) {
-	rule := NodeRule(e.(Node))
-	return g[rule].Unparse(g, e, w)
+	node, ok := e.(Node)
+	if !ok {
+		return writeTokens(e, w)
+	}
+	return g[NodeRule(node)].Unparse(g, e, w)
 }
 
 // Parsers holds Parsers generated by Grammar.Compile.
diff --git a/parser/unparse.go b/parser/unparse.go
index 529e085..38d4e81 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -17,14 +17,12 @@ func (t RE) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 	return w.Write([]byte(e.(Scanner).String()))
 }
 func (t REF) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	return w.Write([]byte("\\" + e.(Scanner).String()))
+	return writeTokens(e, w)
 }
 
 func unparse(g Grammar, term Term, e TreeElement, w io.Writer, N *int) error {
 	n, err := term.Unparse(g, e, w)
-	if err == nil {
-		*N += n
-	}
+	*N += n
 	return err
 }
 
@@ -47,7 +45,11 @@ func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 	node := e.(Node)
 	tgen := t.LRTerms(node)
 	for _, child := range node.Children {
-		if err = unparse(g, tgen.Next(), child, w, &n); err != nil {
+		term := tgen.Next()
+		if _, ok := child.(Empty); ok {
+			continue // marks the side of an optional separator that has no term
+		}
+		if err = unparse(g, term, child, w, &n); err != nil {
 			return
 		}
 	}
@@ -55,12 +57,7 @@ func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 }
 
 func (t LookAhead) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	for _, child := range e.(Node).Children {
-		if err = unparse(g, t.Term, child, w, &n); err != nil {
-			return
-		}
-	}
-	return
+	return 0, nil // what was looked at is matched again by the terms that follow
 }
 
 func (t Quant) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
@@ -93,8 +90,25 @@ func (t Named) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 
 //-----------------------------------------------------------------------------
 
+// outerTerm is the body of a rule seen from a grammar nested in the rule's own.
+type outerTerm struct {
+	Term
+	grammar Grammar
+}
+
+func (t outerTerm) Unparse(_ Grammar, e TreeElement, w io.Writer) (n int, err error) {
+	return t.Term.Unparse(t.grammar, e, w)
+}
+
 func (t ScopedGrammar) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	panic(errors.Inconceivable)
+	inner := Grammar{}
+	for rule, term := range g {
+		inner[rule] = outerTerm{term, g}
+	}
+	for rule, term := range t.Grammar.ResolveStacks() {
+		inner[rule] = term
+	}
+	return t.Term.Unparse(inner, e, w)
 }
 
 func (t CutPoint) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
@@ -102,5 +116,22 @@ func (t CutPoint) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err err
 }
 
 func (t ExtRef) Unparse(g Grammar, te TreeElement, w io.Writer) (n int, err error) {
-	panic("implement me")
+	return writeTokens(te, w)
+}
+
+// writeTokens writes the tokens of a tree whose shape no term of the grammar
+// prescribes.
+func writeTokens(e TreeElement, w io.Writer) (n int, err error) {
+	switch e := e.(type) {
+	case Scanner:
+		return w.Write([]byte(e.String()))
+	case Node:
+		for _, child := range e.Children {
+			m, err := writeTokens(child, w)
+			if n += m; err != nil {
+				return n, err
+			}
+		}
+	}
+	return n, nil
 }
-- 
2.43.0


From 0984423461938d17a70d337c685816668faf47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:15 +0000
Subject: [PATCH 14/37] fix: compile a nested grammar without writing into it

---
 parser/parser.go    |  9 ++-------
 wbnf/wbnfgrammar.go | 17 ++++++++---------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a80abc5..9ae9ae2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -805,15 +805,10 @@ func (t ExtRef) AsTerm() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
-	for _, term := range t.Grammar {
-		if _, ok := term.(Stack); ok {
-			t.Grammar = t.Grammar.clone()
-			t.Grammar.resolveStacks()
-			break
-		}
-	}
+	t.Grammar = t.Grammar.ResolveStacks()
 	if wrap, has := c.grammar[WrapRE]; has {
 		if _, has := t.Grammar[WrapRE]; !has {
+			t.Grammar = t.Grammar.clone()
 			t.Grammar[WrapRE] = wrap
 		}
 	}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index d9d1f87..3077cc8 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -50,15 +50,14 @@ func Grammar() parser.Parsers {
 			parser.Rule(`atom`)},
 		"pragma": parser.ScopedGrammar{Term: parser.Oneof{parser.Rule(`import`),
 			parser.Rule(`macrodef`)},
-			Grammar: parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
-				"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
-					parser.Eq(`path`,
-						parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
-							parser.CutPoint{parser.S(`.`)},
-							parser.RE(`[a-zA-Z0-9.:]+`)},
-							Sep:             parser.S(`/`),
-							CanStartWithSep: true}),
-					parser.Opt(parser.S(`;`))},
+			Grammar: parser.Grammar{"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
+				parser.Eq(`path`,
+					parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
+						parser.CutPoint{parser.S(`.`)},
+						parser.RE(`[a-zA-Z0-9.:]+`)},
+						Sep:             parser.S(`/`),
+						CanStartWithSep: true}),
+				parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
-- 
2.43.0


From 0748e5e4d46de0436b0a4c208662a2091f1c24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 15/37] fix: tag the tree of a rule with the rule's name if it
 refers to a rule of a nested or enclosing grammar

---
 parser/parser.go | 109 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 70 insertions(+), 39 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9ae9ae2..4d14c3b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -25,6 +25,18 @@ type cache struct {
 	parsers    map[Rule]Parser
 	grammar    Grammar
 	rulePtrses map[Rule][]*Parser
+	aliases    map[[2]Rule]*aliasParser
+	outer      *cache // of the enclosing grammar
+}
+
+func newCache(g Grammar, outer *cache) cache {
+	return cache{
+		parsers:    map[Rule]Parser{},
+		grammar:    g,
+		rulePtrses: map[Rule][]*Parser{},
+		aliases:    map[[2]Rule]*aliasParser{},
+		outer:      outer,
+	}
 }
 
 func (c cache) registerRule(parser *Parser) {
@@ -48,37 +60,44 @@ func (c cache) makeParsers(terms []Term) []Parser {
 	return parsers
 }
 
-// makeRules builds the parsers of all rules of the grammar. A rule that merely
-// refers to another one, perhaps under a name, gets a parser of its own for the
-// body of that rule, unless the latter belongs to an enclosing grammar.
+// makeRules builds the parsers of all rules of the grammar.
 func (c cache) makeRules() {
 	for rule, term := range c.grammar {
-		for {
-			r, ok := unnamed(term).(Rule)
-			if !ok {
-				break
-			}
-			next, has := c.grammar[r]
-			if !has {
-				break
-			}
-			term = next
-		}
-		c.parsers[rule] = term.Parser(rule, c)
+		c.parsers[rule] = c.makeParser(rule, term)
 	}
-	for rule := range c.parsers {
-		for range c.parsers {
-			r, ok := c.parsers[rule].(ruleParser)
-			if !ok {
-				break
-			}
-			next, has := c.parsers[r.t]
-			if !has {
-				break
-			}
-			c.parsers[rule] = next
+}
+
+// makeParser builds the parser of a term whose trees are tagged with the name of
+// a rule, even if the term merely refers to another rule.
+func (c cache) makeParser(name Rule, term Term) Parser {
+	if rule, ok := unnamed(term).(Rule); ok {
+		return c.makeAlias(name, rule)
+	}
+	return term.Parser(name, c)
+}
+
+func (c cache) makeAlias(name, rule Rule) Parser {
+	term, has := c.grammar[rule]
+	if !has {
+		if c.outer == nil {
+			return ruleParser{rule: name, t: rule}
 		}
+		return c.outer.makeAlias(name, rule)
 	}
+	key := [2]Rule{name, rule}
+	alias, has := c.aliases[key]
+	if !has {
+		alias = &aliasParser{}
+		c.aliases[key] = alias
+		alias.Parser = c.makeParser(name, term)
+		c.registerRule(&alias.Parser)
+	}
+	return alias
+}
+
+// aliasParser parses the body of one rule under the name of another.
+type aliasParser struct {
+	Parser
 }
 
 func unnamed(term Term) Term {
@@ -154,11 +173,7 @@ func (g Grammar) resolveStacks() {
 func (g Grammar) Compile(node any) Parsers {
 	g = g.ResolveStacks()
 
-	c := cache{
-		parsers:    map[Rule]Parser{},
-		grammar:    g,
-		rulePtrses: map[Rule][]*Parser{},
-	}
+	c := newCache(g, nil)
 	c.makeRules()
 
 	for rule, rulePtrs := range c.rulePtrses {
@@ -725,7 +740,23 @@ func (t Stack) Term() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t Named) Parser(rule Rule, c cache) Parser {
-	return t.Term.Parser(ruleOrAlt(rule, Rule(t.Name)), c)
+	if rule == "" && !isRule(t.Term) {
+		rule = Rule(t.Name)
+	}
+	return t.Term.Parser(rule, c)
+}
+
+// isRule tells whether the term merely refers to a rule, by which it is tagged.
+func isRule(term Term) bool {
+	switch t := term.(type) {
+	case Rule:
+		return true
+	case Named:
+		return isRule(t.Term)
+	case ScopedGrammar:
+		return isRule(t.Term)
+	}
+	return false
 }
 func (t Named) AsTerm() Term { return t }
 
@@ -813,17 +844,18 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		}
 	}
 
-	cc := cache{
-		parsers:    map[Rule]Parser{},
-		grammar:    t.Grammar,
-		rulePtrses: map[Rule][]*Parser{},
-	}
+	cc := newCache(t.Grammar, &c)
 	cc.makeRules()
 
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
 
-	result := t.Term.Parser(name, cc)
+	var result Parser
+	if name == "" {
+		result = t.Term.Parser(name, cc)
+	} else {
+		result = cc.makeParser(name, t.Term)
+	}
 	cc.registerRule(&result)
 	for rule, rulePtrs := range cc.rulePtrses {
 		if _, has := t.Grammar[rule]; has {
@@ -831,7 +863,6 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
-				c.registerRule(rulePtr) // in case p is just a reference to an enclosing rule
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
-- 
2.43.0


From ae5bb6535bf11dcbb7c5c3126b6725e96a9c3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:14 +0000
Subject: [PATCH 16/37] fix: allow a nested grammar in a layer of a stack

---
 parser/resolve.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/resolve.go b/parser/resolve.go
index a96f059..7be87af 100644
--- a/parser/resolve.go
+++ b/parser/resolve.go
@@ -62,7 +62,8 @@ func (t Named) Resolve(oldRule, newRule Rule) Term {
 }
 
 func (t ScopedGrammar) Resolve(oldRule, newRule Rule) Term {
-	panic(errors.Inconceivable)
+	t.Term = t.Term.Resolve(oldRule, newRule)
+	return t
 }
 
 func (t CutPoint) Resolve(oldRule, newRule Rule) Term {
-- 
2.43.0


From 0398a6671c0f1c7f9f7eeed5b9b82bbe45966c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 17/37] fix: decode the escapes of string literals, and refuse
 those that denote nothing

---
 wbnf/compile.go    | 119 +++++++++++++++++++++++----------------------
 wbnf/validation.go |  18 +++++++
 2 files changed, 78 insertions(+), 59 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..559e0fd 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/ast"
 
@@ -19,74 +21,73 @@ func unfakeBackquote(s string) string {
 	return strings.ReplaceAll(s, "‵", "`")
 }
 
+var escapes = map[byte]byte{
+	'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v',
+	'\\': '\\', '\'': '\'', '"': '"',
+}
+
+// parseString decodes a quoted literal, which must be one that unquote accepts.
 func parseString(s string) string {
+	text, err := unquote(s)
+	if err != nil {
+		panic(err)
+	}
+	return text
+}
+
+// unquote decodes a quoted literal. Escapes are those of Go: \xhh and \ooo denote
+// bytes, \uhhhh and \Uhhhhhhhh characters.
+func unquote(s string) (string, error) {
 	var sb strings.Builder
 	quote, s := s[0], s[1:len(s)-1]
 	if quote == '`' {
-		return strings.ReplaceAll(s, "``", "`")
+		sb.WriteString(strings.ReplaceAll(s, "``", "`"))
+		s = ""
 	}
 	for i := 0; i < len(s); i++ {
-		c := s[i]
-		switch c {
-		case '\\':
-			i++
-			switch s[i] {
-			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
-				i++
-			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
-				i += 2
-			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
-				i += 4
-			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
-				i++
-			case 'a':
-				sb.WriteByte('\a')
-			case 'b':
-				sb.WriteByte('\b')
-			case 'f':
-				sb.WriteByte('\f')
-			case 'n':
-				sb.WriteByte('\n')
-			case 'r':
-				sb.WriteByte('\r')
-			case 't':
-				sb.WriteByte('\t')
-			case 'v':
-				sb.WriteByte('\v')
-			case '\\':
-				sb.WriteByte('\\')
-			case '\'':
-				sb.WriteByte('\'')
-			case quote:
-				sb.WriteByte(quote)
-			default:
-				panic(fmt.Errorf("unrecognized \\-escape: %q", s[i]))
-			}
-		default:
+		if s[i] != '\\' {
+			sb.WriteByte(s[i])
+			continue
+		}
+		i++
+		if c, has := escapes[s[i]]; has {
 			sb.WriteByte(c)
+			continue
+		}
+		base, digits, bits := 16, 0, 8
+		switch s[i] {
+		case 'x':
+			digits = 2
+		case 'u':
+			digits, bits = 4, 16
+		case 'U':
+			digits, bits = 8, 32
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			base, digits = 8, 3
+			i--
+		}
+		if digits == 0 || i+digits >= len(s) {
+			return "", fmt.Errorf("unrecognized \\-escape: %q", s[i])
 		}
+		n, err := strconv.ParseUint(s[i+1:i+1+digits], base, bits)
+		if err != nil {
+			return "", fmt.Errorf("bad \\-escape: %w", err)
+		}
+		i += digits
+		switch {
+		case bits == 8:
+			sb.WriteByte(byte(n))
+		case n <= unicode.MaxRune && utf8.ValidRune(rune(n)):
+			sb.WriteRune(rune(n))
+		default:
+			return "", fmt.Errorf("no character: U+%04X", n)
+		}
+	}
+	text := sb.String()
+	if !utf8.ValidString(text) {
+		return "", fmt.Errorf("not valid UTF-8: %q", text)
 	}
-	return sb.String()
+	return text, nil
 }
 
 var whitespaceRE = regexp.MustCompile(`\s`)
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..c474c01 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -75,6 +75,7 @@ const (
 	PossibleCycleDetected
 	NotAMacro
 	IncorrectMacroArgCount
+	InvalidString
 )
 
 type validationError struct {
@@ -160,6 +161,12 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 					msg: "identifier '%s' is not a defined rule", kind: UnknownRule})
 			}
 		}
+	} else if x := tree.OneStr(); x != nil {
+		v.validateStr(*x)
+	} else if x := tree.OneRef(); x != nil {
+		if def := x.OneDefault(); def != nil {
+			v.validateStr(*def)
+		}
 	} else if x := tree.OneRe(); x != nil {
 		if _, err := regexp.Compile(x.String()); err != nil {
 			v.err = append(v.err, validationError{
@@ -173,6 +180,17 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 	return nil
 }
 
+func (v *validator) validateStr(tree StrNode) {
+	if _, err := unquote(tree.String()); err != nil {
+		v.err = append(v.err, validationError{
+			s:    tree.Scanner(),
+			msg:  "string %s is not valid, %s",
+			kind: InvalidString,
+			args: []any{err},
+		})
+	}
+}
+
 func (v *validator) validateQuant(tree QuantNode) Stopper {
 	switch tree.Choice() {
 	case 0:
-- 
2.43.0


From ccfa5cf000cbf11b68ff40af0d42773377e60204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:36 +0000
Subject: [PATCH 18/37] fix: validate patterns as they are compiled, without
 layout

---
 wbnf/compile.go    | 21 +++++++++++++--------
 wbnf/validation.go |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 559e0fd..ab4234f 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -93,6 +93,18 @@ func unquote(s string) (string, error) {
 var whitespaceRE = regexp.MustCompile(`\s`)
 var escapedSpaceRE = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`)
 
+// patternText turns a pattern as written in a grammar into a regular expression.
+func patternText(s string) string {
+	s = whitespaceRE.ReplaceAllString(s, "")
+	// Do this twice to cover adjacent escaped spaces `\_\_`.
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	if strings.HasPrefix(s, "/{") {
+		s = s[2 : len(s)-1]
+	}
+	return s
+}
+
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
 }
@@ -131,14 +143,7 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 	case "STR":
 		return parser.S(parseString(name))
 	case "RE":
-		s := whitespaceRE.ReplaceAllString(name, "")
-		// Do this twice to cover adjacent escaped spaces `\_\_`.
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		if strings.HasPrefix(s, "/{") {
-			s = s[2 : len(s)-1]
-		}
-		return parser.RE(s)
+		return parser.RE(patternText(name))
 	case "REF":
 		refNode := atom.OneRef()
 		ref := parser.REF{
diff --git a/wbnf/validation.go b/wbnf/validation.go
index c474c01..a7322a6 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -168,7 +168,7 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 			v.validateStr(*def)
 		}
 	} else if x := tree.OneRe(); x != nil {
-		if _, err := regexp.Compile(x.String()); err != nil {
+		if _, err := regexp.Compile(patternText(x.String())); err != nil {
 			v.err = append(v.err, validationError{
 				s:    tree.OneRe().Scanner(),
 				msg:  "regex '%s' is not valid, %s",
-- 
2.43.0


From 0132e7a3172a482a26cd2594464ffa439dc7f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:40 +0000
Subject: [PATCH 19/37] fix: refuse quantifier bounds that are zero or too big
 for an int, and don't reserve room for the minimum

---
 parser/parser.go   |  2 +-
 wbnf/validation.go | 34 +++++++++++++++-------------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4d14c3b..7eb0505 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -636,7 +636,7 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
 		return err
 	}
-	result := make([]TreeElement, 0, p.t.Min)
+	result := []TreeElement{}
 	var v TreeElement
 	start := *input
 
diff --git a/wbnf/validation.go b/wbnf/validation.go
index a7322a6..9c1542b 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -96,7 +96,7 @@ func (v validationError) Error() string {
 
 		return fmt.Sprintf(v.msg+"@ %d", args...)
 	}
-	return fmt.Sprintf(v.msg, args...)
+	return fmt.Sprintf(v.msg, v.args...)
 }
 
 type validator struct {
@@ -195,27 +195,23 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 	switch tree.Choice() {
 	case 0:
 	case 1:
-		min := 0
-		max := 0
-		if x := tree.OneMin().String(); x != "" {
-			val, err := strconv.Atoi(x)
-			if err != nil {
-				panic("should not get here")
-			}
-			min = val
+		min, max := 0, 0
+		var err error
+		if x := tree.OneMin(); x != nil {
+			min, err = strconv.Atoi(x.String())
 		}
-		if x := tree.OneMax().String(); x != "" {
-			val, err := strconv.Atoi(x)
-			if err != nil {
-				panic("should not get here")
+		if x := tree.OneMax(); x != nil && err == nil {
+			max, err = strconv.Atoi(x.String())
+			if err == nil && max == 0 {
+				err = fmt.Errorf("max is zero")
 			}
-			max = val
 		}
-		if min != 0 && max != 0 {
-			if max < min {
-				v.err = append(v.err, validationError{
-					msg: fmt.Sprintf("quant: min (%d) > max (%d)", min, max), kind: MinMaxQuantError})
-			}
+		if err != nil {
+			v.err = append(v.err, validationError{
+				msg: "quant: %s", args: []any{err}, kind: MinMaxQuantError})
+		} else if max != 0 && max < min {
+			v.err = append(v.err, validationError{
+				msg: fmt.Sprintf("quant: min (%d) > max (%d)", min, max), kind: MinMaxQuantError})
 		}
 	case 2:
 	}
-- 
2.43.0


From b208e967241eaaa3a1bfebfe968d353419ef5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 20/37] fix: print the quantifier {1,1}

---
 parser/terms.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 11fab53..a505aff 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -244,8 +244,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
-- 
2.43.0


From d6b8fd507a93ee190501e94e2a02138530bab5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:48 +0000
Subject: [PATCH 21/37] fix: validate nested grammars and macro bodies, and
 expand macros wherever a term can be

---
 wbnf/compile.go    |  97 ++++++++++++++++-------------
 wbnf/validation.go | 148 +++++++++++++++++++++++++++------------------
 2 files changed, 144 insertions(+), 101 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index ab4234f..a0fd919 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -107,25 +107,47 @@ func patternText(s string) string {
 
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
+	args   map[string]parser.Term // of the macro being expanded
 }
 
-func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
-	name := node.OneName().String()
-	macro := gb.macros[name]
-	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
-
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
-		switch t := t.(type) {
-		case parser.Rule:
-			for i, arg := range macro.AllArgs() {
-				if arg.String() == string(t) {
-					return gb.buildTerm(node.AllTerm()[i])
-				}
+// with adds the macros that a grammar defines.
+func (gb grammarBuilder) with(tree GrammarNode) grammarBuilder {
+	macros := map[string]PragmaMacrodefNode{}
+	for name, macro := range gb.macros {
+		macros[name] = macro
+	}
+	for _, stmt := range tree.AllStmt() {
+		if pragma := stmt.OnePragma(); pragma != nil {
+			if macro := pragma.OneMacrodef(); macro != nil {
+				macros[macro.OneName().String()] = *macro
 			}
 		}
-		return t
-	})
-	return newg[parser.Rule(name)]
+	}
+	gb.macros = macros
+	return gb
+}
+
+// nestedGrammar returns the grammar that follows the i'th of a node's terms, or nil.
+func nestedGrammar(t TermNode, i int) *GrammarNode {
+	terms := t.AllTerm()
+	for _, g := range t.AllGrammar() {
+		offset := g.Scanner().Offset()
+		if terms[i].Scanner().Offset() < offset &&
+			(i+1 == len(terms) || offset < terms[i+1].Scanner().Offset()) {
+			return &GrammarNode{g.Node}
+		}
+	}
+	return nil
+}
+
+func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
+	macro := gb.macros[node.OneName().String()]
+	args := map[string]parser.Term{}
+	for i, arg := range macro.AllArgs() {
+		args[arg.String()] = gb.buildTerm(node.AllTerm()[i])
+	}
+	gb.args = args
+	return gb.buildTerm(*macro.OneTerm())
 }
 
 func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
@@ -139,6 +161,9 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 
 	switch x {
 	case "IDENT":
+		if arg, has := gb.args[name]; has {
+			return arg
+		}
 		return parser.Rule(name)
 	case "STR":
 		return parser.S(parseString(name))
@@ -225,8 +250,16 @@ func (gb grammarBuilder) buildNamed(n NamedNode) parser.Term {
 func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 	if len(t.AllTerm()) > 0 {
 		var terms []parser.Term
-		for _, t := range t.AllTerm() {
-			terms = append(terms, gb.buildTerm(t))
+		for i, child := range t.AllTerm() {
+			if nested := nestedGrammar(t, i); nested != nil {
+				inner := gb.with(*nested)
+				terms = append(terms, parser.ScopedGrammar{
+					Term:    inner.buildTerm(child),
+					Grammar: inner.buildGrammar(nested.Node),
+				})
+			} else {
+				terms = append(terms, gb.buildTerm(child))
+			}
 		}
 		switch t.OneOp() {
 		case "|":
@@ -234,24 +267,9 @@ func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 		case ">":
 			return append(parser.Stack{}, terms...)
 		}
-		var sg *parser.ScopedGrammar
-		if g := t.AllGrammar(); len(g) == 1 {
-			nested := gb.buildGrammar(g[0].Node)
-			sg = &parser.ScopedGrammar{
-				Grammar: nested,
-			}
-		}
 		if len(terms) == 1 {
-			if sg != nil {
-				sg.Term = terms[0]
-				return *sg
-			}
 			return terms[0]
 		}
-		if sg != nil {
-			sg.Term = append(parser.Seq{}, terms...)
-			return *sg
-		}
 		return append(parser.Seq{}, terms...)
 	}
 	// named and quants need to be added backwards
@@ -288,18 +306,11 @@ func (gb grammarBuilder) buildGrammar(node ast.Node) parser.Grammar {
 }
 
 func NewFromAst(node ast.Node) parser.Grammar {
-	gb := grammarBuilder{
-		macros: map[string]PragmaMacrodefNode{},
-	}
-	WalkerOps{
-		EnterPragmaMacrodefNode: func(node PragmaMacrodefNode) Stopper {
-			gb.macros[node.OneName().String()] = node
-			return nil
-		},
-	}.Walk(NewGrammarNode(node))
-	g := gb.buildGrammar(node)
+	return insertCutPoints(buildGrammar(node))
+}
 
-	return insertCutPoints(g)
+func buildGrammar(node ast.Node) parser.Grammar {
+	return grammarBuilder{}.with(NewGrammarNode(node)).buildGrammar(node)
 }
 
 func mergeGrammarNodes(a, b ast.Branch) ast.Node {
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 9c1542b..3375018 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -10,46 +10,9 @@ import (
 	"github.com/arr-ai/wbnf/parser"
 )
 
-func findDefinedRules(tree GrammarNode) (frozen.Set[string], map[string]PragmaMacrodefNode, error) {
-	var dupeRules []string
-	out := frozen.NewSet[string]()
-	macros := map[string]PragmaMacrodefNode{}
-	adder := func(ident string) {
-		if out.Has(ident) {
-			dupeRules = append(dupeRules, ident)
-		}
-		out = out.With(ident)
-	}
-	ops := WalkerOps{
-		EnterProdNode: func(node ProdNode) Stopper {
-			adder(node.OneIdent().String())
-			return NodeExiter
-		},
-		EnterPragmaMacrodefNode: func(node PragmaMacrodefNode) Stopper {
-			ident := node.OneName().String()
-			adder(ident)
-			macros[ident] = node
-			return NodeExiter
-		},
-	}
-	ops.Walk(tree)
-	if len(dupeRules) == 0 {
-		return out, macros, nil
-	}
-	return frozen.Set[string]{}, nil, validationError{
-		msg:  fmt.Sprintf("the following rule(s) are defined multiple times: %s", dupeRules),
-		kind: DuplicatedRule}
-}
-
 func validate(tree GrammarNode) error {
-	rules, macros, err := findDefinedRules(tree)
-	if err != nil {
-		return err
-	}
-	v := validator{
-		knownRules: rules,
-		macros:     macros,
-	}
+	v := validator{}
+	v.define(tree)
 	v.walk(tree)
 
 	if cycles := checkForRecursion(tree); cycles != nil {
@@ -100,9 +63,48 @@ func (v validationError) Error() string {
 }
 
 type validator struct {
-	knownRules frozen.Set[string]
-	macros     map[string]PragmaMacrodefNode
-	err        []error
+	// known holds the names in scope: nil for a rule or an argument of the macro
+	// being defined, otherwise the macro of that name.
+	known map[string]*PragmaMacrodefNode
+	args  frozen.Set[string]
+	err   []error
+}
+
+// define brings the rules and macros of a grammar into scope.
+func (v *validator) define(tree GrammarNode) {
+	known := map[string]*PragmaMacrodefNode{}
+	var dupeRules []string
+	adder := func(ident IdentNode, macro *PragmaMacrodefNode) {
+		name := ident.String()
+		if _, has := known[name]; has {
+			dupeRules = append(dupeRules, name)
+		}
+		known[name] = macro
+		if v.args.Has(name) {
+			v.err = append(v.err, validationError{s: ident.Scanner(),
+				msg: "rule '%s' clashes with a macro arg", kind: NameClashesWithRule})
+		}
+	}
+	for _, stmt := range tree.AllStmt() {
+		if prod := stmt.OneProd(); prod != nil {
+			adder(*prod.OneIdent(), nil)
+		} else if pragma := stmt.OnePragma(); pragma != nil {
+			if macro := pragma.OneMacrodef(); macro != nil {
+				adder(*macro.OneName(), macro)
+			}
+		}
+	}
+	if len(dupeRules) > 0 {
+		v.err = append(v.err, validationError{
+			msg:  fmt.Sprintf("the following rule(s) are defined multiple times: %s", dupeRules),
+			kind: DuplicatedRule})
+	}
+	for name, macro := range v.known {
+		if _, has := known[name]; !has {
+			known[name] = macro
+		}
+	}
+	v.known = known
 }
 
 func (v *validator) walk(node IsWalkableType) {
@@ -123,7 +125,15 @@ func (v *validator) Error() string {
 
 func (v *validator) validateTerm(tree TermNode) Stopper {
 	if len(tree.AllGrammar()) != 0 {
-		//fixme: This doesnt work for scoped grammars yet, abort!
+		for i, child := range tree.AllTerm() {
+			known := v.known
+			if nested := nestedGrammar(tree, i); nested != nil {
+				v.define(*nested)
+				v.walk(*nested)
+			}
+			v.walk(child)
+			v.known = known
+		}
 		return NodeExiter
 	}
 	if tree.OneOp() == "" {
@@ -145,7 +155,7 @@ func (v *validator) validateTerm(tree TermNode) Stopper {
 
 func (v *validator) validateNamed(tree NamedNode) Stopper {
 	if x := tree.OneIdent(); x != nil {
-		if v.knownRules.Has(x.String()) {
+		if _, has := v.known[x.String()]; has {
 			v.err = append(v.err, validationError{s: tree.OneIdent().Scanner(),
 				msg: "identifier '%s' clashes with a defined rule", kind: NameClashesWithRule})
 		}
@@ -156,7 +166,7 @@ func (v *validator) validateNamed(tree NamedNode) Stopper {
 func (v *validator) validateAtom(tree AtomNode) Stopper {
 	if ident := tree.OneIdent(); ident != nil {
 		if ident.String() != "@" {
-			if !v.knownRules.Has(ident.String()) {
+			if macro, has := v.known[ident.String()]; !has || macro != nil {
 				v.err = append(v.err, validationError{s: tree.OneIdent().Scanner(),
 					msg: "identifier '%s' is not a defined rule", kind: UnknownRule})
 			}
@@ -219,32 +229,54 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 }
 
 func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
-	prevRules := v.knownRules
-	defer func() { v.knownRules = prevRules }()
+	known, args := v.known, v.args
+	defer func() { v.known, v.args = known, args }()
 
+	v.known = map[string]*PragmaMacrodefNode{}
+	for name, macro := range known {
+		v.known[name] = macro
+	}
 	for _, arg := range node.AllArgs() {
-		if v.knownRules.Has(arg.String()) {
+		if _, has := v.known[arg.String()]; has {
 			v.err = append(v.err, validationError{s: arg.Scanner(),
 				msg: "macro arg '%s' clashes with a defined rule", kind: NameClashesWithRule})
 		} else {
-			v.knownRules = v.knownRules.With(arg.String())
+			v.known[arg.String()] = nil
+			v.args = v.args.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	return NodeExiter
 }
 
 func (v *validator) validateMacroCall(node MacrocallNode) Stopper {
-	macro, has := v.macros[node.OneName().String()]
-	if !has {
+	name := node.OneName().String()
+	macro := v.known[name]
+	if macro == nil {
 		v.err = append(v.err, validationError{s: node.OneName().Scanner(),
 			msg: "Attempting to call %s which is not a macro", kind: NotAMacro})
-	} else {
-		if len(macro.AllArgs()) != len(node.AllTerm()) {
-			v.err = append(v.err, validationError{
-				msg: fmt.Sprintf("Macro %s expected %d args, given %d",
-					node.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})
-		}
+	} else if len(macro.AllArgs()) != len(node.AllTerm()) {
+		v.err = append(v.err, validationError{
+			msg: fmt.Sprintf("Macro %s expected %d args, given %d",
+				name, len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})
+	} else if v.isRecursive(macro, frozen.NewSet(name)) {
+		v.err = append(v.err, validationError{s: node.OneName().Scanner(),
+			msg: "Macro %s calls itself", kind: PossibleCycleDetected})
 	}
 	return nil
 }
+
+// isRecursive tells whether a macro calls any of those being expanded.
+func (v *validator) isRecursive(macro *PragmaMacrodefNode, expanding frozen.Set[string]) bool {
+	found := false
+	WalkerOps{EnterMacrocallNode: func(node MacrocallNode) Stopper {
+		name := node.OneName().String()
+		if expanding.Has(name) {
+			found = true
+		} else if next := v.known[name]; next != nil && !found {
+			found = v.isRecursive(next, expanding.With(name))
+		}
+		return nil
+	}}.Walk(*macro.OneTerm())
+	return found
+}
-- 
2.43.0


From 0c266bbeb00ddb846339f9766ae2fa2461c3111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 22/37] fix: find left recursion exactly

Rules were only compared by their first terms' syntax: optional terms,
patterns and literals that match nothing, stacks, delimiters, nested
grammars and macros hid a recursion, and others were refused without one.
---
 wbnf/recursion.go  | 292 +++++++++++++++++++++++++++++++++++++++++----
 wbnf/validation.go |   6 +-
 2 files changed, 272 insertions(+), 26 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..af43002 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -2,10 +2,13 @@ package wbnf
 
 import (
 	"fmt"
+	"regexp/syntax"
 	"sort"
 	"strings"
 
 	"github.com/arr-ai/frozen"
+
+	"github.com/arr-ai/wbnf/parser"
 )
 
 /*
@@ -21,41 +24,282 @@ Obvious ones:
 	a -> "("? a;
 */
 func checkForRecursion(tree GrammarNode) error {
-	dangers := map[string]frozen.Set[string]{}
+	f := flattener{rules: map[string]parser.Term{}, bindings: map[string][]parser.Term{}}
+	f.addGrammar(buildGrammar(tree.Node), flatScope{})
+	f.findEmpty()
 
-	// First get a map with every rules directly connected rules
-	WalkerOps{EnterProdNode: func(node ProdNode) Stopper {
-		td := frozen.NewSet[string]()
-		for _, t := range node.AllTerm() {
-			td = td.Union(getSequenceDangerTerms(t))
+	targets := map[string][]string{}
+	for rule, term := range f.rules {
+		targets[rule] = sortedSet(f.leftmost(term))
+	}
+	if cycles := findCycles(targets); len(cycles) > 0 {
+		return validationError{
+			msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(cycles, "\n\t")),
+			kind: PossibleCycleDetected,
 		}
-		dangers[node.OneIdent().String()] = td
-		return NodeExiter
-	}}.Walk(tree)
+	}
+	return nil
+}
+
+// flattener collects the rules of a grammar and all grammars nested in it under
+// unique names.
+type flattener struct {
+	rules    map[string]parser.Term
+	bindings map[string][]parser.Term // what back-references may refer to
+	empty    map[string]bool          // the rules that can match the empty text
+	grammars int
+}
 
-	// walk every path
-	gn := &gnode{map[string]*gnode{}}
-	for k := range dangers {
-		gn.walkRule(k, &dangers)
+type flatScope struct {
+	names map[parser.Rule]string
+	wrap  parser.Term
+}
+
+func (f *flattener) addGrammar(g parser.Grammar, outer flatScope) flatScope {
+	g = g.ResolveStacks()
+	suffix := ""
+	if f.grammars > 0 {
+		suffix = fmt.Sprintf("{%d}", f.grammars)
 	}
+	f.grammars++
 
-	// now determine the cycles
+	scope := flatScope{names: map[parser.Rule]string{}, wrap: outer.wrap}
+	for rule, name := range outer.names {
+		scope.names[rule] = name
+	}
+	rules := make([]string, 0, len(g))
+	for rule := range g {
+		scope.names[rule] = string(rule) + suffix
+		rules = append(rules, string(rule))
+	}
+	if wrap, has := g[parser.WrapRE]; has {
+		scope.wrap = wrap
+	}
+	sort.Strings(rules)
+	for _, rule := range rules {
+		f.rules[rule+suffix] = f.flatten(g[parser.Rule(rule)], scope)
+	}
+	return scope
+}
 
-	var badRoutes []string
-	paths := findPaths("", gn, frozen.NewSet[string](), nil)
-	for _, p := range paths {
-		if len(p) != frozen.NewSet(p...).Count() {
-			badRoutes = append(badRoutes, strings.Join(p, " > "))
+// flatten replaces the rules in a term by their unique names and its terminals by
+// the empty sequence if they can match the empty text.
+func (f *flattener) flatten(term parser.Term, scope flatScope) parser.Term {
+	switch t := term.(type) {
+	case parser.S:
+		if t == "" {
+			return f.flattenTerminal("", "", scope)
+		}
+		return f.flattenTerminal(string(t), ".", scope)
+	case parser.RE:
+		return f.flattenTerminal(string(t), string(t), scope)
+	case parser.REF:
+		if t.Default != nil {
+			t.Default = f.flatten(t.Default, flatScope{})
+		}
+		return t
+	case parser.Rule:
+		return parser.Rule(scope.names[t])
+	case parser.Seq:
+		out := parser.Seq{}
+		for _, item := range t {
+			out = append(out, f.flatten(item, scope))
+			f.bind(item, out[len(out)-1])
 		}
+		return out
+	case parser.Oneof:
+		out := parser.Oneof{}
+		for _, item := range t {
+			out = append(out, f.flatten(item, scope))
+		}
+		return out
+	case parser.Delim:
+		term, sep := f.flatten(t.Term, scope), f.flatten(t.Sep, scope)
+		f.bind(t.Term, term)
+		f.bind(t.Sep, sep)
+		out := parser.Seq{term, parser.Any(parser.Seq{sep, term})}
+		if t.CanStartWithSep {
+			out = append(parser.Seq{parser.Opt(sep)}, out...)
+			f.bind(t.Sep, out[0])
+		}
+		return out
+	case parser.Quant:
+		t.Term = f.flatten(t.Term, scope)
+		return t
+	case parser.LookAhead:
+		return parser.Opt(f.flatten(t.Term, scope))
+	case parser.Named:
+		return f.flatten(t.Term, scope)
+	case parser.ScopedGrammar:
+		return f.flatten(t.Term, f.addGrammar(t.Grammar, scope))
 	}
+	return term
+}
 
-	if len(badRoutes) > 0 {
-		return validationError{
-			msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(badRoutes, "\n\t")),
-			kind: PossibleCycleDetected,
+func (f *flattener) flattenTerminal(text, re string, scope flatScope) parser.Term {
+	wrap := scope.wrap
+	if oneof, ok := wrap.(parser.Oneof); ok {
+		wrap = oneof[len(oneof)-1]
+		for _, exempt := range oneof[:len(oneof)-1] {
+			if exempt == parser.S(text) || exempt == parser.RE(text) {
+				wrap = nil
+			}
 		}
 	}
-	return nil
+	if wrap, ok := wrap.(parser.RE); ok {
+		re = strings.Replace(string(wrap), "()", "(?:"+re+")", 1)
+	}
+	if parsed, err := syntax.Parse(re, syntax.Perl); err == nil && canBeEmpty(parsed) {
+		return parser.Seq{}
+	}
+	return parser.S(text)
+}
+
+func canBeEmpty(re *syntax.Regexp) bool {
+	switch re.Op {
+	case syntax.OpEmptyMatch, syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText,
+		syntax.OpWordBoundary, syntax.OpNoWordBoundary, syntax.OpStar, syntax.OpQuest:
+		return true
+	case syntax.OpLiteral:
+		return len(re.Rune) == 0
+	case syntax.OpCapture, syntax.OpPlus:
+		return canBeEmpty(re.Sub[0])
+	case syntax.OpRepeat:
+		return re.Min == 0 || canBeEmpty(re.Sub[0])
+	case syntax.OpConcat:
+		for _, sub := range re.Sub {
+			if !canBeEmpty(sub) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, sub := range re.Sub {
+			if canBeEmpty(sub) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// bind notes that back-references to the name of a term may match what the term did.
+func (f *flattener) bind(term, flat parser.Term) {
+	for {
+		switch t := term.(type) {
+		case parser.Named:
+			f.bindings[t.Name] = append(f.bindings[t.Name], flat)
+			return
+		case parser.Rule:
+			f.bindings[string(t)] = append(f.bindings[string(t)], flat)
+			return
+		case parser.Quant:
+			term = t.Term
+		default:
+			return
+		}
+	}
+}
+
+// findEmpty finds the rules that can match the empty text.
+func (f *flattener) findEmpty() {
+	f.empty = map[string]bool{}
+	for changed := true; changed; {
+		changed = false
+		for rule, term := range f.rules {
+			if !f.empty[rule] && f.isEmpty(term) {
+				f.empty[rule] = true
+				changed = true
+			}
+		}
+	}
+}
+
+func (f *flattener) isEmpty(term parser.Term) bool {
+	switch t := term.(type) {
+	case parser.Rule:
+		return f.empty[string(t)]
+	case parser.REF:
+		if t.Default != nil && f.isEmpty(t.Default) {
+			return true
+		}
+		for _, binding := range f.bindings[t.Ident] {
+			if _, isRef := binding.(parser.REF); !isRef && f.isEmpty(binding) {
+				return true
+			}
+		}
+	case parser.Seq:
+		for _, item := range t {
+			if !f.isEmpty(item) {
+				return false
+			}
+		}
+		return true
+	case parser.Oneof:
+		for _, item := range t {
+			if f.isEmpty(item) {
+				return true
+			}
+		}
+	case parser.Quant:
+		return t.Min == 0 || f.isEmpty(t.Term)
+	}
+	return false
+}
+
+// leftmost returns the rules a term may refer to before any input is consumed.
+func (f *flattener) leftmost(term parser.Term) frozen.Set[string] {
+	result := frozen.NewSet[string]()
+	switch t := term.(type) {
+	case parser.Rule:
+		return result.With(string(t))
+	case parser.Seq:
+		for _, item := range t {
+			result = result.Union(f.leftmost(item))
+			if !f.isEmpty(item) {
+				break
+			}
+		}
+	case parser.Oneof:
+		for _, item := range t {
+			result = result.Union(f.leftmost(item))
+		}
+	case parser.Quant:
+		return f.leftmost(t.Term)
+	}
+	return result
+}
+
+// findCycles returns a path for each step of a depth-first search that leads back.
+func findCycles(targets map[string][]string) []string {
+	rules := make([]string, 0, len(targets))
+	for rule := range targets {
+		rules = append(rules, rule)
+	}
+	sort.Strings(rules)
+
+	var cycles, path []string
+	done := map[string]bool{}
+	depth := map[string]int{} // of the rules on the path, from 1
+	var visit func(rule string)
+	visit = func(rule string) {
+		path = append(path, rule)
+		if d := depth[rule]; d > 0 {
+			cycles = append(cycles, strings.Join(path[d-1:], " > "))
+		} else if !done[rule] {
+			done[rule] = true
+			depth[rule] = len(path)
+			for _, target := range targets[rule] {
+				visit(target)
+			}
+			depth[rule] = 0
+		}
+		path = path[:len(path)-1]
+	}
+	for _, rule := range rules {
+		visit(rule)
+	}
+	return cycles
 }
 
 func findPaths(name string, node *gnode, seen frozen.Set[string], current []string) [][]string {
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 3375018..5e4df05 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -15,8 +15,10 @@ func validate(tree GrammarNode) error {
 	v.define(tree)
 	v.walk(tree)
 
-	if cycles := checkForRecursion(tree); cycles != nil {
-		v.err = append(v.err, cycles)
+	if len(v.err) == 0 {
+		if cycles := checkForRecursion(tree); cycles != nil {
+			v.err = append(v.err, cycles)
+		}
 	}
 
 	if len(v.err) == 0 {
-- 
2.43.0


From 4a2fe41e8879db5bb2e50ca4d07748ec23c72bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 23/37] fix: render the errors of repetitions without recurring
 forever

The error of a repetition that fell short of its minimum listed itself as its
cause, and nested errors were rendered as trees of their own.
---
 parser/error.go  | 11 +++++++----
 parser/parser.go |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/error.go b/parser/error.go
index eb0b6f1..7027ea9 100644
--- a/parser/error.go
+++ b/parser/error.go
@@ -69,10 +69,13 @@ func (p ParseError) Error() string {
 func (p ParseError) walkErrors(parent gotree.Tree) {
 	x := gotree.New(fmt.Sprintf(`rule(%s) - %s`, p.rule, fmt.Sprintf(p.msgFormat, p.msgArgs...)))
 	for _, errf := range p.children {
-		err := errf()
-		if pe, ok := err.(*ParseError); ok {
-			pe.walkErrors(x)
-		} else {
+		switch err := errf().(type) {
+		case nil:
+		case ParseError:
+			err.walkErrors(x)
+		case FatalError:
+			err.walkErrors(x)
+		default:
 			x.Add(err.Error())
 		}
 	}
diff --git a/parser/parser.go b/parser/parser.go
index 7eb0505..e1ae2f2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -661,10 +661,11 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	err := out // out itself becomes the new error
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, func() error { return err }, func() error { return stk })
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From 2246a80e6b262bd72fde07f47149f71ec3ea227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:57 +0000
Subject: [PATCH 24/37] fix: accept block comments of any length

---
 README.md           | 2 +-
 wbnf/wbnfgrammar.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index b018ee9..15cb466 100644
--- a/README.md
+++ b/README.md
@@ -320,7 +320,7 @@ REF         -> "%" IDENT ("=" default=STR)?;
 
 // Terminals
 COMMENT -> /{ //.*$
-            | (?s: /\* (?: [^*] | \*+[^*/] ) \*/ )
+            | (?s: /\* (?: [^*] | \*+[^*/] )* \*+/ )
             };
 IDENT   -> /{@|\.?[A-Za-z_]\w*};
 INT     -> \d+;
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 3077cc8..e12a6b4 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -9,7 +9,7 @@ import (
 
 func Grammar() parser.Parsers {
 	return parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
-		"COMMENT": parser.RE(`//.*$|(?s:/\*(?:[^*]|\*+[^*/])\*/)`),
+		"COMMENT": parser.RE(`//.*$|(?s:/\*(?:[^*]|\*+[^*/])*\*+/)`),
 		"IDENT":   parser.RE(`@|\.?[A-Za-z_]\w*`),
 		"INT":     parser.RE(`\d+`),
 		"RE":      parser.RE(`/{(?:\\.|{(?:(?:\d+(?:,\d*)?|,\d+)\})?|\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|[^\\{\}])*\}|(?:(?:\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|\\[pP](?:[a-z]|\{[a-zA-Z_]+\})|\\[a-zA-Z]|[.^$])(?:(?:[+*?]|\{\d+,?\d?\})\??)?)+`),
@@ -1486,7 +1486,7 @@ REF         -> "%" IDENT ("=" default=STR)?;
 
 // Terminals
 COMMENT -> /{ //.*$
-            | (?s: /\* (?: [^*] | \*+[^*/] ) \*/ )
+            | (?s: /\* (?: [^*] | \*+[^*/] )* \*+/ )
             };
 IDENT   -> /{@|\.?[A-Za-z_]\w*};
 INT     -> \d+;
-- 
2.43.0


From fc05f6ebf03f48b64615577c41c5b9af44ccee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 25/37] fix: never catch the error of a missing external
 handler, and accept any escape delimiters

A commit point drawn as 1 caught it, alternatives in a delimiter weren't
anchored, and looking up other than matched values in a handler's scope crashed.
---
 parser/parser.go |  2 +-
 parser/scope.go  | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e1ae2f2..f242301 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -821,7 +821,7 @@ func (t ExtRef) Parse(scope Scope, input *Scanner, output *TreeElement, stk *cal
 	}
 	fn := scope.GetExternal(string(t))
 	if fn == nil {
-		return newParseError(Rule(string(t)), "External handler not found")(Cutpointdata(1),
+		return newParseError(Rule(string(t)), "External handler not found")(noCutpoint,
 			func() error { return stk.push(string(t), t.AsTerm()) },
 		)
 	}
diff --git a/parser/scope.go b/parser/scope.go
index dfc9ae0..bb78523 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"math"
 	"math/rand"
 	"regexp"
 	"strings"
@@ -65,8 +66,9 @@ func (s Scope) WithVal(ident string, p Parser, val TreeElement) Scope {
 
 func (s Scope) GetVal(ident string) (Parser, TreeElement, bool) {
 	if val, ok := s.m.Get(ident); ok {
-		sv := val.(*scopeVal)
-		return sv.p, sv.val, ok
+		if sv, ok := val.(*scopeVal); ok {
+			return sv.p, sv.val, ok
+		}
 	}
 	return nil, nil, false
 }
@@ -77,13 +79,16 @@ type Cutpointdata int32
 
 func (c Cutpointdata) valid() bool { return c >= 0 }
 
-const invalidCutpoint = Cutpointdata(-1)
+const (
+	invalidCutpoint = Cutpointdata(-1)
+	noCutpoint      = Cutpointdata(math.MaxInt32) // of errors no cut point can catch
+)
 
 func (s Scope) ReplaceCutPoint(force bool) (newScope Scope, prev, replacement Cutpointdata) {
 	prev = s.GetCutPoint()
 	if prev.valid() || force {
 		// TODO: What's with the random number?
-		replacement = Cutpointdata(rand.Int31()) //nolint:gosec
+		replacement = Cutpointdata(rand.Int31n(int32(noCutpoint))) //nolint:gosec
 		return s.With(cutpointkey, replacement), prev, replacement
 	}
 	return s, invalidCutpoint, invalidCutpoint
@@ -106,8 +111,8 @@ func (s Scope) WithExternals(extRefs ExternalRefs) Scope {
 			}
 			openClose := strings.Split(name[1:], "()")
 			e = &escape{
-				openDelim:  regexp.MustCompile(`(?m)\A` + openClose[0]),
-				closeDelim: regexp.MustCompile(`(?m)\A` + openClose[1]),
+				openDelim:  regexp.MustCompile(`(?m)\A(?:` + openClose[0] + `)`),
+				closeDelim: regexp.MustCompile(`(?m)\A(?:` + openClose[1] + `)`),
 				external:   external,
 			}
 			sb.Put(parseEscapeKey, e)
-- 
2.43.0


From 4ab516ba7867aaf23c8c0c37025d79e7e4248042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:33 +0000
Subject: [PATCH 26/37] fix: return an error for parsing an unknown rule

---
 parser/terms.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/terms.go b/parser/terms.go
index a505aff..ae76d5f 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -52,8 +52,12 @@ func (p Parsers) Unparse(e TreeElement, w io.Writer) (n int, err error) {
 // Parse parses some source per a given rule.
 func (p Parsers) ParseWithExternals(rule Rule, input *Scanner, exts ExternalRefs) (TreeElement, error) {
 	scope := Scope{}.WithExternals(exts)
+	parser, has := p.parsers[rule]
+	if !has {
+		return nil, newParseError(rule, "rule not found")(invalidCutpoint)
+	}
 	var e TreeElement
-	if err := p.parsers[rule].Parse(scope, input, &e, nil); err != nil {
+	if err := parser.Parse(scope, input, &e, nil); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 3702a9ed3360e611539fe005c6779ae7ab9a0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 27/37] fix: import each file once, into the grammar that
 imports it

Cyclic imports never ended, files were resolved against the wrong directory,
and what a nested grammar imported ended up outside of it.
---
 cmd/test.go     |   2 +-
 wbnf/compile.go | 130 ++++++++++++++++++++++++++++--------------------
 2 files changed, 78 insertions(+), 54 deletions(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..7d931ba 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,7 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
diff --git a/wbnf/compile.go b/wbnf/compile.go
index a0fd919..5497fad 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -2,6 +2,7 @@ package wbnf
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -131,15 +132,36 @@ func (gb grammarBuilder) with(tree GrammarNode) grammarBuilder {
 func nestedGrammar(t TermNode, i int) *GrammarNode {
 	terms := t.AllTerm()
 	for _, g := range t.AllGrammar() {
-		offset := g.Scanner().Offset()
-		if terms[i].Scanner().Offset() < offset &&
-			(i+1 == len(terms) || offset < terms[i+1].Scanner().Offset()) {
+		nested := start(g.AllStmt()[0].Node)
+		if start(terms[i].Node) < nested && (i+1 == len(terms) || nested < start(terms[i+1].Node)) {
 			return &GrammarNode{g.Node}
 		}
 	}
 	return nil
 }
 
+// start returns the offset of the first token. It ignores nested grammars, which
+// are never first and may hold statements of other files.
+func start(node ast.Node) int {
+	first := math.MaxInt
+	switch node := node.(type) {
+	case ast.Leaf:
+		first = node.Scanner().Offset()
+	case ast.Branch:
+		for name := range node {
+			if name == "grammar" {
+				continue
+			}
+			for _, child := range ast.All(node, name) {
+				if s := start(child); s < first {
+					first = s
+				}
+			}
+		}
+	}
+	return first
+}
+
 func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[node.OneName().String()]
 	args := map[string]parser.Term{}
@@ -313,75 +335,77 @@ func buildGrammar(node ast.Node) parser.Grammar {
 	return grammarBuilder{}.with(NewGrammarNode(node)).buildGrammar(node)
 }
 
-func mergeGrammarNodes(a, b ast.Branch) ast.Node {
-	a["stmt"] = append(a["stmt"].(ast.Many), b.Many("stmt")...)
-	return a
-}
-
 type ImportResolver interface {
 	// Resolve returns the absolute path of the file at the location 'path' relative to the 'from' path
 	Resolve(from, path string) string
 }
 
 type compiler struct {
-	imports  map[string]GrammarNode
 	resolver ImportResolver
 }
 
-func (c *compiler) makeGrammar(filename, text string) (GrammarNode, error) {
-	node, err := Parse(parser.NewScannerWithFilename(text, filename))
-	if err != nil {
-		return GrammarNode{}, err
-	}
-	WalkerOps{
-		EnterPragmaImportNode: func(impNode PragmaImportNode) Stopper {
-			importPath := filepath.Join(impNode.OnePath().AllToken()...)
-			if c.resolver != nil {
-				importPath = c.resolver.Resolve(filename, importPath)
-			}
-			nested, nestedErr := c.loadGrammarFile(importPath)
-			if nestedErr != nil {
-				err = nestedErr
-				return &aborter{}
-			}
-			if nested.Node != nil {
-				x := mergeGrammarNodes(node.Node.(ast.Branch), nested.Node.(ast.Branch))
-				node = GrammarNode{Node: x}
-			}
-			return nil
-		},
-	}.Walk(node)
-	if err != nil {
-		return GrammarNode{}, err
+// include adds the statements of the files that statements in a file import to
+// the grammar these belong to, unless it has them already.
+func (c *compiler) include(
+	stmts []StmtNode, grammar ast.Branch, filename string, including []string, included map[string]bool,
+) (err error) {
+	for _, stmt := range stmts {
+		WalkerOps{
+			EnterPragmaImportNode: func(impNode PragmaImportNode) Stopper {
+				importPath := filepath.Join(impNode.OnePath().AllToken()...)
+				if c.resolver != nil {
+					importPath = c.resolver.Resolve(filename, importPath)
+				}
+				importPath = filepath.Clean(importPath)
+				if !included[importPath] {
+					included[importPath] = true
+					err = c.includeFile(grammar, importPath, including, included)
+				}
+				return nil
+			},
+			EnterGrammarNode: func(nested GrammarNode) Stopper {
+				included := map[string]bool{}
+				for _, file := range including {
+					included[file] = true
+				}
+				if err == nil {
+					err = c.include(nested.AllStmt(), nested.Node.(ast.Branch), filename, including, included)
+				}
+				return NodeExiter
+			},
+		}.Walk(stmt)
+		if err != nil {
+			return err
+		}
 	}
-	return node, nil
+	return nil
 }
 
-func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
-	filename = filepath.Clean(filename)
-	if _, has := c.imports[filename]; !has {
-		text, err := os.ReadFile(filename)
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		g, err := c.makeGrammar(filename, string(text))
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		c.imports[filename] = g
+func (c *compiler) includeFile(
+	grammar ast.Branch, filename string, including []string, included map[string]bool,
+) error {
+	text, err := os.ReadFile(filename)
+	if err != nil {
+		return err
+	}
+	node, err := Parse(parser.NewScannerWithFilename(string(text), filename))
+	if err != nil {
+		return err
 	}
-	return c.imports[filename], nil
+	grammar["stmt"] = append(grammar["stmt"].(ast.Many), node.Node.Many("stmt")...)
+	including = append(append([]string{}, including...), filename)
+	return c.include(node.AllStmt(), grammar, filename, including, included)
 }
 
 func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
-	c := compiler{
-		imports:  map[string]GrammarNode{},
-		resolver: resolver,
-	}
-	node, err := c.makeGrammar("", grammar)
+	node, err := Parse(parser.NewScannerWithFilename(grammar, ""))
 	if err != nil {
 		return parser.Parsers{}, err
 	}
+	c := compiler{resolver: resolver}
+	if err := c.include(node.AllStmt(), node.Node.(ast.Branch), "", nil, map[string]bool{}); err != nil {
+		return parser.Parsers{}, err
+	}
 	if err := validate(node); err != nil {
 		return parser.Parsers{}, err
 	}
-- 
2.43.0


From c43a0745325062e4bb8fe2ddf2e4f4878c7e01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:56 +0000
Subject: [PATCH 28/37] fix: refuse misplaced stacks and unusable wrapping
 patterns, and let @ be the rule itself outside of a stack

All of these crashed, some not before a parse.
---
 parser/resolve.go  |   8 ++--
 wbnf/compile.go    |   8 +++-
 wbnf/places.go     | 103 +++++++++++++++++++++++++++++++++++++++++++++
 wbnf/validation.go |   8 ++++
 4 files changed, 123 insertions(+), 4 deletions(-)
 create mode 100644 wbnf/places.go

diff --git a/parser/resolve.go b/parser/resolve.go
index 7be87af..96d2f63 100644
--- a/parser/resolve.go
+++ b/parser/resolve.go
@@ -1,7 +1,5 @@
 package parser
 
-import "github.com/arr-ai/wbnf/errors"
-
 func (t Rule) Resolve(oldRule, newRule Rule) Term {
 	if t == oldRule {
 		return newRule
@@ -37,7 +35,11 @@ func (t Oneof) Resolve(oldRule, newRule Rule) Term {
 }
 
 func (t Stack) Resolve(oldRule, newRule Rule) Term {
-	panic(errors.Inconceivable)
+	result := make(Stack, 0, len(t))
+	for _, term := range t {
+		result = append(result, term.Resolve(oldRule, newRule))
+	}
+	return result
 }
 
 func (t Delim) Resolve(oldRule, newRule Rule) Term {
diff --git a/wbnf/compile.go b/wbnf/compile.go
index 5497fad..ba0fbdf 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -321,7 +321,13 @@ func (gb grammarBuilder) buildGrammar(node ast.Node) parser.Grammar {
 	tree := NewGrammarNode(node)
 	for _, stmt := range tree.AllStmt() {
 		if prod := stmt.OneProd(); prod != nil {
-			g[parser.Rule(prod.OneIdent().String())] = gb.buildProd(*prod)
+			rule := parser.Rule(prod.OneIdent().String())
+			term := gb.buildProd(*prod)
+			if _, ok := term.(parser.Stack); !ok {
+				// a stack of one layer
+				term = term.Resolve(parser.At, rule)
+			}
+			g[rule] = term
 		}
 	}
 	return g
diff --git a/wbnf/places.go b/wbnf/places.go
new file mode 100644
index 0000000..ab34510
--- /dev/null
+++ b/wbnf/places.go
@@ -0,0 +1,103 @@
+package wbnf
+
+import (
+	"fmt"
+	"regexp"
+	"regexp/syntax"
+	"sort"
+	"strings"
+
+	"github.com/arr-ai/wbnf/parser"
+)
+
+// validateGrammar finds terms in places where they have no meaning.
+func (v *validator) validateGrammar(g parser.Grammar) {
+	rules := make([]string, 0, len(g))
+	for rule := range g {
+		rules = append(rules, string(rule))
+	}
+	sort.Strings(rules)
+	for _, rule := range rules {
+		term := g[parser.Rule(rule)]
+		if parser.Rule(rule) == parser.WrapRE && !isWrap(term) {
+			v.err = append(v.err, validationError{
+				msg:  fmt.Sprintf("%s must be a regex with () for the wrapped one: %s", rule, term),
+				kind: InvalidRegex})
+		}
+		if stack, ok := term.(parser.Stack); ok {
+			for _, layer := range stack {
+				v.validatePlaces(rule, layer)
+			}
+		} else {
+			v.validatePlaces(rule, term)
+		}
+	}
+}
+
+func (v *validator) validatePlaces(rule string, term parser.Term) {
+	switch t := term.(type) {
+	case parser.Stack:
+		v.err = append(v.err, validationError{
+			msg:  fmt.Sprintf("a stack must be the whole of rule '%s'", rule),
+			kind: MisplacedStack})
+	case parser.Seq:
+		for _, term := range t {
+			v.validatePlaces(rule, term)
+		}
+	case parser.Oneof:
+		for _, term := range t {
+			v.validatePlaces(rule, term)
+		}
+	case parser.Delim:
+		v.validatePlaces(rule, t.Term)
+		v.validatePlaces(rule, t.Sep)
+	case parser.Quant:
+		v.validatePlaces(rule, t.Term)
+	case parser.LookAhead:
+		v.validatePlaces(rule, t.Term)
+	case parser.Named:
+		v.validatePlaces(rule, t.Term)
+	case parser.ScopedGrammar:
+		v.validatePlaces(rule, t.Term)
+		v.validateGrammar(t.Grammar)
+	}
+}
+
+// isWrap tells whether the term can serve as .wrapRE.
+func isWrap(term parser.Term) bool {
+	if oneof, ok := term.(parser.Oneof); ok {
+		for _, exempt := range oneof[:len(oneof)-1] {
+			switch exempt.(type) {
+			case parser.S, parser.RE:
+			default:
+				return false
+			}
+		}
+		term = oneof[len(oneof)-1]
+	}
+	wrap, ok := term.(parser.RE)
+	if !ok {
+		return false
+	}
+	without, err := regexp.Compile(strings.Replace(string(wrap), "()", "(?:)", 1))
+	if err != nil || without.NumSubexp() != 0 {
+		return false
+	}
+	with, err := syntax.Parse(strings.Replace(string(wrap), "()", "(x)", 1), syntax.Perl)
+	return err == nil && capturesAlways(with)
+}
+
+// capturesAlways tells whether every match of the regex has the capturing group once.
+func capturesAlways(re *syntax.Regexp) bool {
+	switch re.Op {
+	case syntax.OpCapture:
+		return true
+	case syntax.OpConcat:
+		for _, sub := range re.Sub {
+			if capturesAlways(sub) {
+				return true
+			}
+		}
+	}
+	return false
+}
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 5e4df05..433f0b6 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -15,6 +15,9 @@ func validate(tree GrammarNode) error {
 	v.define(tree)
 	v.walk(tree)
 
+	if len(v.err) == 0 {
+		v.validateGrammar(buildGrammar(tree.Node))
+	}
 	if len(v.err) == 0 {
 		if cycles := checkForRecursion(tree); cycles != nil {
 			v.err = append(v.err, cycles)
@@ -41,6 +44,7 @@ const (
 	NotAMacro
 	IncorrectMacroArgCount
 	InvalidString
+	MisplacedStack
 )
 
 type validationError struct {
@@ -82,6 +86,10 @@ func (v *validator) define(tree GrammarNode) {
 			dupeRules = append(dupeRules, name)
 		}
 		known[name] = macro
+		if name == parser.StackDelim {
+			v.err = append(v.err, validationError{s: ident.Scanner(),
+				msg: "'%s' is not a name for a rule", kind: NameClashesWithRule})
+		}
 		if v.args.Has(name) {
 			v.err = append(v.err, validationError{s: ident.Scanner(),
 				msg: "rule '%s' clashes with a macro arg", kind: NameClashesWithRule})
-- 
2.43.0


From 5d7551b55a62a6eb23ddbbd20a31e2322d85565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 29/37] fix: end a quotation that lasts to the end of a pattern
 before wrapping it

---
 parser/parser.go  | 7 ++++++-
 wbnf/recursion.go | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f242301..54d330f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -341,7 +341,12 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 func (p *reParser) AsTerm() Term { return p.t }
 
 func (t RE) Parser(rule Rule, c cache) Parser {
-	re := applyWrapRE(string(t), func(re string) string { return "(" + re + ")" }, c)
+	re := applyWrapRE(string(t), func(re string) string {
+		if _, err := regexp.Compile("(" + re + ")"); err != nil {
+			re += `\E` // a \Q that lasts to the end
+		}
+		return "(" + re + ")"
+	}, c)
 	return &reParser{
 		rule: rule,
 		t:    t,
diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index af43002..01c45ab 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -146,6 +146,9 @@ func (f *flattener) flattenTerminal(text, re string, scope flatScope) parser.Ter
 			}
 		}
 	}
+	if _, err := syntax.Parse("("+re+")", syntax.Perl); err != nil {
+		re += `\E` // a \Q that lasts to the end
+	}
 	if wrap, ok := wrap.(parser.RE); ok {
 		re = strings.Replace(string(wrap), "()", "(?:"+re+")", 1)
 	}
-- 
2.43.0


From 1361c621d693546c012437ff1506dfe4617f949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 30/37] fix: don't let an escape replace a part of a
 delimiter's implementation

---
 parser/parser.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 54d330f..d9051f9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -361,6 +361,10 @@ type seqParser struct {
 	t       Seq
 	parsers []Parser
 	put     putter
+
+	// artificial marks a part of a delimiter's implementation rather than a term
+	// of the grammar. It can't be replaced by an escape.
+	artificial bool
 }
 
 func identFromTerm(term Term) string {
@@ -405,8 +409,10 @@ func nodesEqual(a, b any) bool {
 
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.artificial {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, len(p.parsers))
 	furthest := *input
@@ -537,10 +543,24 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 		seq = append(seq, Opt(t.Sep))
 	}
 
+	child := seq.Parser(rule, c).(*seqParser)
+	child.artificial = true
+	for _, p := range child.parsers {
+		switch p := p.(type) {
+		case *quantParser: // optional leading or trailing separator
+			p.artificial = true
+		case *seqParser: // term and following separated terms
+			p.artificial = true
+			rest := p.parsers[1].(*quantParser)
+			rest.artificial = true
+			rest.term.(*seqParser).artificial = true
+		}
+	}
+
 	p := &delimParser{
 		rule:  rule,
 		t:     t,
-		child: seq.Parser(rule, c),
+		child: child,
 		put:   tag(rule, delimTag),
 	}
 	c.registerRule(&p.child)
@@ -634,12 +654,16 @@ type quantParser struct {
 	t    Quant
 	term Parser
 	put  putter
+
+	artificial bool // see seqParser
 }
 
 func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.artificial {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := []TreeElement{}
 	var v TreeElement
-- 
2.43.0


From 834448c8422c3ecee4b544e1cbf88f3d41714cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 31/37] fix: convert trees of associative delimiters, stacks
 and nested grammars without crashing or altering the grammar

---
 ast/counter.go         | 14 +++++++---
 ast/from_parsernode.go | 59 ++++++++++++++++++++++--------------------
 ast/node.go            | 38 +++++++++++++++++----------
 ast/to_parsernode.go   | 21 +++++----------
 4 files changed, 72 insertions(+), 60 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 3bb31a0..1900d90 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -15,11 +15,14 @@ func newCounter(lo, hi int) counter {
 }
 
 func newCounterFromQuant(q parser.Quant) counter {
-	max := q.Max
-	if max == 0 {
+	min, max := q.Min, q.Max
+	if min > 2 {
+		min = 2
+	}
+	if max == 0 || max > 2 {
 		max = 2
 	}
-	return newCounter(q.Min, max)
+	return newCounter(min, max)
 }
 
 var (
@@ -99,7 +102,7 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.S, parser.RE:
 		ctrs.count("", parent)
 	case parser.Rule:
-		ctrs.count(string(t), parent)
+		ctrs.count(unlevel(string(t)), parent)
 	case parser.Seq:
 		for _, child := range t {
 			ctrs.termCountChildren(child, parent)
@@ -113,6 +116,9 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.Delim:
 		ctrs.termCountChildren(t.Term, parent.mul(oneOrMore))
 		ctrs.termCountChildren(t.Sep, parent.mul(zeroOrMore))
+		if t.Assoc != parser.NonAssociative {
+			ctrs.count(delimTag, parent.mul(zeroOrOne)) // unless it has a name
+		}
 	case parser.Quant:
 		ctrs.termCountChildren(t.Term, parent.mul(newCounterFromQuant(t)))
 	case parser.Named:
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..e5601c0 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -29,7 +29,7 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 	result := Branch{}
 	result.one("@rule", Extra{rule})
 	ctrs := newCounters(term)
-	result.fromParserNode(g, term, ctrs, e)
+	result.fromParserNode(&scope{g: g}, term, ctrs, e)
 	return result.collapse(0).(Branch)
 }
 
@@ -115,31 +115,27 @@ func (b Branch) many(name string, node Node) {
 	}
 }
 
-func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters, e parser.TreeElement) {
+func (b Branch) fromParserNode(g *scope, term parser.Term, ctrs counters, e parser.TreeElement) {
 	var tag string
 	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("tag=%q, n=%v", &tag, &n)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		b.add("", Leaf(e.(parser.Scanner)), ctrs[""])
 	case parser.Rule:
-		rule := g[t]
+		rule, outer := g.lookup(t)
 		childCtrs := newCounters(rule)
 		b2 := Branch{}
-		unleveled, level := unlevel(string(t), g)
-		b2.fromParserNode(g, rule, childCtrs, e)
+		unleveled := unlevel(string(t))
+		b2.fromParserNode(outer, rule, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
 		// 	// TODO: zeroOrOne
 		// }
-		node = node.collapse(level)
-		b.add(unleveled, node, ctrs[string(t)])
+		node = node.collapse(0)
+		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		b.fromParserNode(gcopy, t.Term, ctrs, e)
+		b.fromParserNode(g.nest(t.Grammar), t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
 		for i, child := range node.Children {
@@ -152,25 +148,22 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 	case parser.Delim:
 		node := e.(parser.Node)
 		tag = node.Tag
-		tgen := t.LRTerms(node)
+		terms := [2]parser.Term{t.Term, t.Sep}
 		for i, child := range node.Children {
-			lrTerm := tgen.Next()
 			if _, ok := child.(parser.Empty); ok {
-				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
-			} else {
-				if lrTerm == t {
-					if _, ok := child.(parser.Node); ok {
-						childCtrs := newCounters(lrTerm)
-						b2 := Branch{}
-						childCtrs.termCountChildren(t, ctrs[""])
-						b2.fromParserNode(g, lrTerm, childCtrs, child)
-						b.one(tag, b2)
-					} else {
-						b.fromParserNode(g, t.Term, ctrs, child)
-					}
-				} else {
-					b.fromParserNode(g, lrTerm, ctrs, child)
+				b.many(EmptyTag, Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
+			} else if isNested(node, i) {
+				// The rest of an associative node has the same names, hence is a branch of its own.
+				b2 := Branch{}
+				b2.fromParserNode(g, t, newCounters(t), child)
+				unleveled := unlevel(tag)
+				ctr := ctrs[unleveled]
+				if ctr == (counter{}) {
+					ctr = zeroOrOne
 				}
+				b.add(unleveled, b2, ctr)
+			} else {
+				b.fromParserNode(g, terms[i%2], ctrs, child)
 			}
 		}
 	case parser.Quant:
@@ -217,3 +210,13 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		panic(fmt.Errorf("branch.fromParserNode: unexpected term type: %v %[1]T", t))
 	}
 }
+
+// isNested tells whether the i-th child of an associative delimiter's node is such a node, too.
+func isNested(node parser.Node, i int) bool {
+	switch assoc, _ := node.Extra.(parser.Associativity); {
+	case assoc > 0 && i == 0, assoc < 0 && i == len(node.Children)-1:
+		child, ok := node.Children[i].(parser.Node)
+		return ok && child.Tag == node.Tag && child.Extra == node.Extra
+	}
+	return false
+}
diff --git a/ast/node.go b/ast/node.go
index d4cd064..a1a5c05 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -3,10 +3,7 @@ package ast
 import (
 	"fmt"
 	"regexp"
-	"strconv"
-	"strings"
 
-	"github.com/arr-ai/wbnf/errors"
 	"github.com/arr-ai/wbnf/parser"
 )
 
@@ -19,6 +16,7 @@ const (
 	RuleTag   = "@rule"
 	ChoiceTag = "@choice"
 	SkipTag   = "@skip"
+	EmptyTag  = "@empty"
 )
 
 type Children interface {
@@ -104,22 +102,34 @@ func (e Extra) collapse(level int) Node {
 	return e
 }
 
-var stackLevelRE = regexp.MustCompile(`^(\w+)@(\d+)$`)
+var stackLevelRE = regexp.MustCompile(`^([\w.]+)@\d+$`)
 
-func unlevel(name string, g parser.Grammar) (string, int) {
+// unlevel returns the name of the stack that a rule is a layer of, if any.
+func unlevel(name string) string {
 	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
-		i, err := strconv.Atoi(m[2])
-		if err != nil {
-			panic(errors.Inconceivable)
-		}
-		return m[1], i
+		return m[1]
 	}
-	if !strings.Contains(name, parser.StackDelim) {
-		if _, has := g[parser.Rule(name+"@1")]; has {
-			return name, 0
+	return name
+}
+
+// scope is a grammar within the grammars it is nested in.
+type scope struct {
+	g     parser.Grammar
+	outer *scope
+}
+
+func (s *scope) nest(g parser.Grammar) *scope {
+	return &scope{g: g.ResolveStacks(), outer: s}
+}
+
+// lookup returns the definition of a rule and the scope it was found in.
+func (s *scope) lookup(rule parser.Rule) (parser.Term, *scope) {
+	for ; s != nil; s = s.outer {
+		if term, has := s.g[rule]; has {
+			return term, s
 		}
 	}
-	return name, -1
+	return nil, nil
 }
 
 func (c One) clone() Children {
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..19c6f93 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -13,7 +13,7 @@ func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	term := g[rule]
 	ctrs := newCounters(term)
 	branch = expandNode(branch, string(rule)).(Branch)
-	return relabelNode(string(rule), branch.toParserNode(g, term, ctrs))
+	return relabelNode(string(rule), branch.toParserNode(&scope{g: g}, term, ctrs))
 }
 
 func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
@@ -74,7 +74,7 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
-func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters) (out parser.TreeElement) {
+func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
@@ -84,19 +84,16 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		return nil
 	case parser.Rule:
 		name := string(t)
-		term := g[t]
-		unleveled, level := unlevel(name, g)
-		if node := b.pull(unleveled, ctrs[name]); node != nil {
-			if level > 0 {
-				node = expandNode(node, unleveled)
-			}
+		term, outer := g.lookup(t)
+		unleveled := unlevel(name)
+		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			childCtrs := newCounters(term)
 			// if name := childCtrs.singular(); name != nil {
 			// 	node = Branch{*name: One{Node: node}}
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(g, term, childCtrs))
+				return relabelNode(string(t), node.toParserNode(outer, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -105,11 +102,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		return b.toParserNode(gcopy, t.Term, ctrs)
+		return b.toParserNode(g.nest(t.Grammar), t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
 		for _, child := range t {
-- 
2.43.0


From cbd8c4cba63e04796b8af4e93f1b40363ffc3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 32/37] fix: restore options, separators, names and
 back-references from syntax trees

---
 ast/node.go          |   2 +
 ast/to_parsernode.go | 119 ++++++++++++++++++++++++++++++++++++-------
 2 files changed, 104 insertions(+), 17 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index a1a5c05..fef5835 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -13,6 +13,8 @@ const (
 	delimTag = ":"
 	quantTag = "?"
 
+	lookaheadTag = "?="
+
 	RuleTag   = "@rule"
 	ChoiceTag = "@choice"
 	SkipTag   = "@skip"
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 19c6f93..b1d130b 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -9,6 +9,10 @@ import (
 
 func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	branch = branch.clone().(Branch)
+	if _, has := branch[RuleTag]; !has {
+		// A rule that is but a terminal leaves no trace.
+		return parser.Scanner(branch.pullFromOne("").(Leaf))
+	}
 	rule := branch.pullFromOne(RuleTag).(Extra).Data.(parser.Rule)
 	term := g[rule]
 	ctrs := newCounters(term)
@@ -74,6 +78,42 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
+// pullEmpty pulls the marker of a leading or trailing separator, if that is what comes next.
+func (b Branch) pullEmpty(where string) bool {
+	if many, ok := b[EmptyTag].(Many); ok && many[0] == (Extra{where}) {
+		b.pullFromMany(EmptyTag)
+		return true
+	}
+	return false
+}
+
+// size is the number of children not pulled yet.
+func (b Branch) size() int {
+	n := 0
+	for _, children := range b {
+		switch c := children.(type) {
+		case One:
+			n++
+		case Many:
+			n += len(c)
+		}
+	}
+	return n
+}
+
+// hasOwnTag tells whether the term's node has a tag that a name doesn't change.
+func hasOwnTag(term parser.Term) bool {
+	switch t := term.(type) {
+	case parser.Rule, parser.REF, parser.ExtRef:
+		return true
+	case parser.Named:
+		return hasOwnTag(t.Term)
+	case parser.ScopedGrammar:
+		return hasOwnTag(t.Term)
+	}
+	return false
+}
+
 func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
@@ -128,29 +168,45 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 			Tag:   delimTag,
 			Extra: parser.NonAssociative,
 		}
-		terms := [2]parser.Term{t.Term, t.Sep}
-		i := 0
-		for ; ; i++ {
-			if child := b.toParserNode(g, terms[i%2], ctrs); child != nil {
-				v.Children = append(v.Children, child)
-			} else {
-				break
-			}
+		if t.CanStartWithSep && b.pullEmpty("@prefix") {
+			v.Children = append(v.Children, parser.Empty{}, b.toParserNode(g, t.Sep, ctrs))
 		}
-		if i%2 == 0 {
-			panic(errors.Inconceivable)
+		child := b.toParserNode(g, t.Term, ctrs)
+		if child == nil {
+			return nil
+		}
+		v.Children = append(v.Children, child)
+		for {
+			size := b.size()
+			sep := b.toParserNode(g, t.Sep, ctrs)
+			if sep == nil {
+				return v
+			}
+			child := b.toParserNode(g, t.Term, ctrs)
+			if child == nil || b.size() == size { // further empty matches would repeat forever
+				if t.CanEndWithSep && b.pullEmpty("@suffix") {
+					v.Children = append(v.Children, sep, parser.Empty{})
+				} else if child == nil {
+					panic(errors.Inconceivable)
+				}
+				return v
+			}
+			v.Children = append(v.Children, sep, child)
 		}
-		return v
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
-		for i := 0; !t.MaxLessThan(i); i++ {
-			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
-				result.Children = append(result.Children, v)
-			} else {
+		for t.Max == 0 || len(result.Children) < t.Max {
+			size := b.size()
+			v := b.toParserNode(g, t.Term, ctrs)
+			if v == nil || t.Max == 0 && len(result.Children) >= t.Min && b.size() == size {
 				break
 			}
+			result.Children = append(result.Children, v)
 		}
 		if !t.Contains(len(result.Children)) {
+			if len(result.Children) == 0 {
+				return nil // as part of an option or repetition
+			}
 			panic(errors.Inconceivable)
 		}
 		return result
@@ -162,7 +218,11 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(g, t.Term, childCtrs))
+				child := node.toParserNode(g, t.Term, childCtrs)
+				if hasOwnTag(t.Term) {
+					return child
+				}
+				return relabelNode(t.Name, child)
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -173,8 +233,33 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 	case parser.CutPoint:
 		return b.toParserNode(g, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(g, t.Term, ctrs)
+		if child := b.toParserNode(g, t.Term, ctrs); child != nil {
+			return parser.Node{Tag: lookaheadTag, Children: []parser.TreeElement{child}}
+		}
+		return nil
+	case parser.REF:
+		if node := b.pull(t.Ident, ctrs[t.Ident]); node != nil {
+			return refNode(t.Ident, t.Ident, node)
+		}
+		return nil
+	case parser.ExtRef:
+		if node := b.pull(string(t), ctrs[string(t)]); node != nil {
+			return parser.Node{Tag: "extref", Extra: node.(Branch)}
+		}
+		return nil
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
 }
+
+// refNode returns the node of a back-reference to ident, or of a part of one.
+func refNode(ident, tag string, node Node) parser.TreeElement {
+	if leaf, ok := node.(Leaf); ok {
+		return parser.Scanner(leaf)
+	}
+	result := parser.Node{Tag: tag}
+	for _, child := range node.Many(ident) {
+		result.Children = append(result.Children, refNode(ident, seqTag, child))
+	}
+	return result
+}
-- 
2.43.0


From 2bda04cf6db39d7681a1387a767f85ca629134cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 33/37] fix: show the text found at the place where a terminal
 is missing

The text was taken from the scanner when the error was printed, after other
alternatives had moved it.
---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d9051f9..c4960d3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -300,9 +300,10 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		found := *input // which is gone by the time the error is printed
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&found)) },
 			func() error { return stk },
 		)
 	}
@@ -330,9 +331,10 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		found := *input // which is gone by the time the error is printed
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.re.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&found)) },
 			func() error { return stk },
 		)
 	}
-- 
2.43.0


From 3c829bb8d22870e57fc9bd90864191df6a84952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 34/37] fix: let a back-reference refer to a list with a
 leading or trailing separator

The marker beyond the separator became a nil term, and parsing panicked.
---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c4960d3..8b09d63 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -800,7 +800,9 @@ func termFromRefVal(from TreeElement) Term {
 	case Node:
 		s := Seq{}
 		for _, v := range n.Children {
-			s = append(s, termFromRefVal(v))
+			if _, ok := v.(Empty); !ok {
+				s = append(s, termFromRefVal(v))
+			}
 		}
 		term = s
 	case Scanner:
-- 
2.43.0


From da0f4ae2a790729afda385711c6f692717eb6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 35/37] fix: let a back-reference refer to a token that isn't
 valid UTF-8

The token was made a pattern as it is, which panicked.
---
 parser/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8b09d63..2f8de34 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/errors"
 )
@@ -299,7 +300,12 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 	if escaped, err := parseEscape(p, scope, string(p.rule), p.t, input, output); escaped || err != nil {
 		return err
 	}
-	if ok := eatRegexp(input, p.re, output); !ok {
+	start := *input
+	ok := eatRegexp(input, p.re, output)
+	if ok && !utf8.ValidString(string(p.t)) && (*output).(Scanner).String() != string(p.t) {
+		*input, ok = start, false // a regexp can't tell invalid bytes apart
+	}
+	if !ok {
 		found := *input // which is gone by the time the error is printed
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
@@ -312,7 +318,8 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 func (p *sParser) AsTerm() Term { return p.t }
 
 func (t S) Parser(rule Rule, c cache) Parser {
-	re := applyWrapRE(string(t), func(re string) string { return "(" + regexp.QuoteMeta(re) + ")" }, c)
+	// A regexp has to be valid UTF-8, unlike a token that is referred back to.
+	re := applyWrapRE(string([]rune(t)), func(re string) string { return "(" + regexp.QuoteMeta(re) + ")" }, c)
 	return &sParser{
 		rule: rule,
 		t:    t,
-- 
2.43.0


From 762aef170bea45c25c48d0ebf31ffaf0e6ed3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 36/37] fix: print the items of a tree view in the same order
 every time

---
 ast/treeview.go  | 10 ++++++++--
 gotree/gotree.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..0e45666 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,11 +34,16 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names) // the order of items of the same rank
+		for _, name := range names {
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
-			switch c := val.(type) {
+			switch c := n[name].(type) {
 			case One:
 				tree.AddTree(fromAst(name, c.Node, skipAtNodes))
 			case Many:
diff --git a/gotree/gotree.go b/gotree/gotree.go
index b19fdd4..4683cd9 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
-- 
2.43.0


From 018c46122d2d6a9974b03d8e874ff40d5303d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 37/37] fix: list the rules only one of two grammars has in the
 same order every time

---
 parser/diff/terms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index d505914..33446d2 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -3,6 +3,7 @@ package diff
 import (
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/arr-ai/wbnf/parser"
 )
@@ -56,6 +57,8 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
+	sort.Slice(diff.OnlyInA, func(i, j int) bool { return diff.OnlyInA[i] < diff.OnlyInA[j] })
+	sort.Slice(diff.OnlyInB, func(i, j int) bool { return diff.OnlyInB[i] < diff.OnlyInB[j] })
 	return diff
 }
 
-- 
2.43.0

