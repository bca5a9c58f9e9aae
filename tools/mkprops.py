#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source of truth for the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every token is an exact slice of the source, in source order",
  "Every token in the tree of a successful parse is an in-range slice of the parsed source whose text equals the source text at its reported offset. Read left to right (lookahead results aside) the tokens do not overlap and their offsets never decrease, and the source text outside all tokens is exactly what the grammar's wrapping pattern or a regular expression's uncaptured part matched, so with neither the tokens concatenate to the consumed text.",
  ["inputs", "programs"], "for every grammar built from the supported terms and every source text",
  "tests compare a few trees for a few sources; offsets of repeated, empty and separated tokens depend on the input",
  ["parser/scanner.go", "parser/parser.go"],
  [("EatRegexp/Slice/Skip arithmetic", "parser/scanner.go"), ("eatRegexp picks the capture group", "parser/parser.go")],
  observe=["Parsers.Parse", "Scanner.Offset", "Scanner.String"])
p("C02", "Reported line and column are those of the offset in the source",
  "For every scanner positioned inside a source, the reported position is 1-based: the line is one more than the number of newlines before its offset and the column is one more than the number of bytes since the last newline (or the start). The context rendering shows file name, that position, the scanner's text, and at most the requested number of neighbouring lines before and after, or all of the source when unlimited.",
  ["inputs"], "for every source text, every in-range slice and every line limit",
  "tests sample two sources; off-by-one errors depend on where newlines fall relative to the slice",
  ["parser/scanner.go"], [("lineColumn, Position", "parser/scanner.go"), ("Context splits above/below text", "parser/scanner.go")],
  observe=["Scanner.Position", "Scanner.Context"])
p("C03", "Scanner slicing, eating, merging and containment form one consistent algebra",
  "Slicing, skipping and eating a scanner give the same text as the same operation on its string, keep offsets relative to the original source, and eating advances by exactly the text returned; a failed eat changes nothing. Merging scanners of one source yields the smallest scanner that contains all of them whatever their order and fails for different sources, containment holds exactly for same-source sub-ranges, and stripping the source keeps the text.",
  ["inputs", "histories"], "for every source, every in-range slice and every sequence of eat, skip, slice and merge operations",
  "unit tests exercise each operation on one fixed string",
  ["parser/scanner.go"], [("Slice, Skip, Eat, EatString, EatRegexp", "parser/scanner.go"), ("MergeScanners, Contains, StripSource", "parser/scanner.go")],
  observe=["Scanner.String", "Scanner.Offset"])
p("C04", "Sequence, choice, repetition, reference and lookahead match as documented",
  "Matching a compiled grammar follows the documented ordered semantics: a sequence matches its terms in order; a choice takes the first alternative that matches at that point and records its index; a quantifier takes as many repetitions as possible up to its maximum and fails below its minimum; a rule reference behaves as the rule's body; a lookahead succeeds exactly when its term would match here and consumes nothing. Success or failure, the consumed text and the shape and tags of the tree are those this semantics prescribes.",
  ["inputs", "programs"], "for every composition of these terms and every source text",
  "there are unboundedly many compositions of terms and inputs; tests cover a few dozen pairs",
  ["parser/parser.go", "parser/terms.go"],
  [("seqParser, oneofParser, quantParser, lookaheadParser", "parser/parser.go"), ("rule pointers patched by Compile", "parser/parser.go")],
  observe=["Parsers.Parse"])
p("C05", "Delimited repetition accepts term (sep term)* with the stated associativity",
  "A delimited term matches one or more terms with exactly one separator between neighbours, additionally a leading or trailing separator exactly when the grammar allows it, and leaves the rest alone. The non-associative tree lists terms and separators in order (with an empty marker beyond an optional leading or trailing separator); the left- and right-associative trees nest in the stated direction and read back, left to right, as the same terms and separators.",
  ["inputs", "programs"], "for every term and separator, every associativity and separator option, and every source text",
  "tests fix a handful of expression lengths; the nesting and optional-separator cases depend on the number of items",
  ["parser/parser.go", "parser/terms.go"], [("Delim.Parser rewriting and delimParser.Parse", "parser/parser.go")],
  observe=["Parsers.Parse"])
p("C06", "Precedence stacks bind tighter from top to bottom",
  "A rule defined as a precedence stack means the chain of layers in which a reference to the current rule inside a layer is the next, tighter layer, and inside the last layer the whole stack again. So parsing an expression with such a rule gives the tree in which lower layers bind tighter and equal precedence follows the stated associativity, and the stack rule and the same chain written out as separate rules accept the same texts.",
  ["inputs", "programs"], "for every stack of layers and every source text",
  "tests parse three or four expressions with one stack grammar",
  ["parser/parser.go", "parser/resolve.go"], [("Grammar.resolveStacks and Term.Resolve", "parser/parser.go, parser/resolve.go")],
  observe=["Parsers.Parse"])
p("C07", "Literals match themselves; patterns yield their captured text",
  "A literal term matches exactly its own characters, whatever they are, and nothing else, and its token is that text. A pattern term matches at the current position exactly where the regular expression does and its token is the text of its first capture group that took part in the match, or the whole match if there is none; a grammar-wide wrapping pattern is matched around every terminal except those it exempts and never becomes part of a token.",
  ["inputs", "programs"], "for every literal text, every pattern of the supported shapes, every wrapping pattern and every source text",
  "special characters and capture-group combinations are far more numerous than the tested ones",
  ["parser/parser.go", "parser/scanner.go"],
  [("S.Parser quotes the literal; RE.Parser adds a group", "parser/parser.go"), ("applyWrapRE substitutes the terminal in the wrapper", "parser/parser.go"), ("eatRegexp capture selection", "parser/parser.go")],
  observe=["Parsers.Parse"])
p("C08", "A back-reference matches exactly the text its name matched before",
  "A back-reference to a named term matches, at its own position, exactly the token text most recently matched under that name in the enclosing sequence (or the ones around it), or the texts of all its tokens one after another if the name stands for several (lookaheads aside), and fails on anything else. If the name has not matched in scope, its default term is matched instead, and without a default the reference fails; values matched inside an abandoned alternative or a finished inner sequence are not seen.",
  ["inputs", "programs", "histories"], "for every grammar using back-references and every source text",
  "scoping depends on which alternatives were tried and abandoned before the reference",
  ["parser/parser.go", "parser/scope.go"], [("seqParser binds names in Scope; REF.Parse re-parses and compares", "parser/parser.go"), ("Scope.WithVal/GetVal", "parser/scope.go")],
  observe=["Parsers.Parse"])
p("C09", "Parse succeeds only on the whole input, and reports exactly the unread rest",
  "Parsing succeeds exactly when the rule matches a prefix of the input that is the entire input; otherwise it returns an error and no tree. If the rule matched but input is left over, the error carries the tree of the matched part and a residue that is exactly the unread suffix of the original source.",
  ["inputs", "programs"], "for every grammar, start rule and source text",
  "the residue depends on how far each backtracking alternative got",
  ["parser/terms.go", "parser/error.go", "parser/parser.go"], [("ParseWithExternals checks the residue", "parser/terms.go"), ("input restored or advanced by each parser", "parser/parser.go")],
  observe=["Parsers.Parse", "UnconsumedInputError.Residue", "UnconsumedInputError.Result"])
p("C10", "Committing on unique literals never changes what parses or what the tree is",
  "The automatic commit points inserted when grammar text is compiled are an optimisation of error reporting only: for any source text, parsing with them succeeds or fails as the same grammar without them does, and gives the same tree. Only a literal with a single place in the whole grammar, nested grammars and optional separators included, where it can be matched and consumed becomes a commit point. (Grammars where another literal, a pattern or a back-reference can match a committed literal in whole or part are outside the claim: committing there is a documented heuristic.)",
  ["inputs", "programs"], "for every grammar text and every source text",
  "a wrong commit only shows on the inputs that would have needed the abandoned alternative",
  ["wbnf/cutpoints.go", "parser/parser.go", "parser/scope.go"],
  [("findUniqueStrings / insertCutPoints", "wbnf/cutpoints.go"), ("FatalError with cut-point ids, isNotMyFatalError", "parser/error.go, parser/parser.go")],
  state=[("cut-point id in Scope", "which choice or repetition the current commit belongs to", "parser/scope.go")],
  observe=["wbnf.Compile", "Parsers.Parse"])
p("C11", "Accepted grammars terminate without crashing; left recursion is refused",
  "Compiling any grammar text either returns an error or a parser, without crashing or running forever, and in particular every grammar in which a rule can reach itself without consuming input is refused. Any parser it returns terminates without crashing on every input, returning a tree or an error.",
  ["inputs", "programs"], "for every grammar text and every source text",
  "non-termination needs a particular cycle of rules or a repetition of an empty match; tests list a few",
  ["wbnf/recursion.go", "wbnf/compile.go", "parser/parser.go"],
  [("checkForRecursion", "wbnf/recursion.go"), ("quantParser stops on failure", "parser/parser.go")],
  observe=["wbnf.Compile", "Parsers.Parse"])
p("C12", "Grammar text compiles to the grammar the syntax describes",
  "Compiling grammar text yields exactly the term structure the syntax reference gives it: precedence of stack, choice, sequence and postfix operators, the bounds of each quantifier form, the options of each delimiter form, names, references, lookaheads and nested grammars, with comments, layout and redundant parentheses making no difference. Two texts that describe the same structure compile to parsers with the same behaviour.",
  ["programs"], "for every grammar text within the syntax",
  "the syntax composes freely; tests compile a few dozen grammars",
  ["wbnf/compile.go", "wbnf/wbnfgrammar.go", "wbnf/grammar.go"],
  [("NewFromAst, buildTerm/buildAtom/buildQuant", "wbnf/compile.go"), ("core grammar", "wbnf/wbnfgrammar.go")],
  observe=["wbnf.Compile", "Parsers.Grammar"])
p("C13", "String literals in grammar text decode their escapes correctly",
  "A quoted literal in grammar text denotes the text between its quotes with each escape sequence replaced by the character it denotes and every other character standing for itself: the single-character escapes, hexadecimal, Unicode and octal escapes, and an escaped quote or backslash. Raw back-quoted literals take everything verbatim except a doubled back-quote, which denotes one.",
  ["programs"], "for every literal body in each of the three quote styles",
  "each escape form and each neighbour of it is a separate case",
  ["wbnf/compile.go"], [("parseString", "wbnf/compile.go")], observe=["wbnf.Compile", "Parsers.Grammar"])
p("C14", "A macro call means the macro body with its arguments substituted",
  "A grammar using macros compiles to the same grammar as the text in which every call is replaced by the macro's body with each parameter replaced by the corresponding argument, wherever in the body the parameter occurs. Calls of unknown macros or with the wrong number of arguments are refused, and macros leave no other trace in the grammar.",
  ["programs"], "for every macro body, argument list and call site",
  "parameters can occur under every kind of term; tests use two macros",
  ["wbnf/compile.go", "wbnf/validation.go"], [("fixTerm / macro expansion", "wbnf/compile.go"), ("argument count validation", "wbnf/validation.go")],
  observe=["wbnf.Compile", "Parsers.Grammar"])
p("C15", "Imports merge the imported rules exactly once and always terminate",
  "A grammar that imports others compiles to the same grammar as the text with the imported statements included, transitively and each file once, resolved relative to the importing file. An import that cannot be read, two different definitions of one rule, and import cycles end in an error or a merged grammar, never in a crash or endless recursion.",
  ["programs", "configurations"], "for every set of grammar files and every import graph between them",
  "the import graph (chains, diamonds, cycles) is the input; tests import a single file",
  ["wbnf/compile.go"], [("makeGrammar / import resolution", "wbnf/compile.go")], observe=["wbnf.Compile"])
p("C16", "Ill-formed grammars are refused and well-formed ones accepted",
  "Compiling refuses, with an error value, exactly the grammars that break a documented rule: a rule defined twice, a reference to a rule that does not exist, a name that clashes with its siblings' use, a quantifier whose maximum is below its minimum, a macro misuse, a stack that is not the whole of a rule, a pattern that is not a valid regular expression, a wrapping pattern with no place to wrap. A grammar that breaks none of them, nor recurses on the left, is accepted.",
  ["programs"], "for every grammar text",
  "each check must see every place a term can occur, including nested grammars, delimiters, lookaheads and macro arguments",
  ["wbnf/validation.go", "wbnf/recursion.go"], [("validator walk", "wbnf/validation.go"), ("checkForRecursion", "wbnf/recursion.go")],
  observe=["wbnf.Compile"])
p("C17", "The syntax tree keeps every token of the parse under its own name",
  "Converting any parse tree of a grammar into a syntax tree succeeds, and every token of the parse appears in it exactly once, with the same text and position, under the name of the enclosing named term or rule (the layers of a stack under that of the stack) and grouped and ordered as matched. The name of the parsed rule and every choice taken are recorded, and what a name or rule can match only once is a single child, what it can match several times a list. (A back-reference is a child under the name it refers to. Excepted is an unnamed associative delimiter that is the term of another one of the same direction: their parse trees can't be told apart.)",
  ["inputs", "programs"], "for every grammar and every parse tree of it",
  "names, repetition and associativity combine; each combination takes another path through the conversion",
  ["ast/from_parsernode.go", "ast/counter.go", "ast/node.go"], [("fromParserNode", "ast/from_parsernode.go"), ("counter decides One or Many", "ast/counter.go")],
  observe=["ast.FromParserNode"])
p("C18", "Syntax trees convert back to the parse tree they came from",
  "Converting the syntax tree of a parse back to a parse tree with the same grammar gives a parse tree equal to the original in structure, tags, choices and token texts, for grammars built from literals, patterns, sequences, choices, repetitions, lookaheads, references, back-references, names, nested grammars, non-associative delimiters and stacks, in which no name that a repetition or delimited list contributes to can occur after it in the same rule or named term (so that their number of items can be told from the syntax tree). Neither conversion alters its argument or the grammar.",
  ["inputs", "programs"], "for every such grammar and every parse tree of it",
  "an inverse must hold for every shape; tests round-trip a few samples",
  ["ast/from_parsernode.go", "ast/to_parsernode.go"], [("ToParserNode / relabel", "ast/to_parsernode.go")],
  observe=["ast.FromParserNode", "ast.ToParserNode"])
p("C19", "Syntax-tree queries return exactly what the tree holds",
  "Looking up one, all, or the first of some names, asking which names or which choice are present, and merging a branch's text give exactly the children, choice and source range stored in the tree, for present and absent names alike. Comparing two trees by content is an equivalence relation that ignores positions and nothing else.",
  ["inputs"], "for every syntax tree and every query",
  "single and repeated children, absent names and nested branches combine",
  ["ast/node.go", "ast/helpers.go"], [("Branch/One/Many accessors", "ast/node.go"), ("Which, Choice, First, All", "ast/helpers.go"), ("ContentEquals", "ast/node.go")],
  observe=["ast.Branch", "ast.First", "ast.All", "ast.Which"])
p("C20", "Unparsing a parse tree reproduces the text it was parsed from",
  "Unparsing the tree of any successful parse with the same grammar writes exactly the concatenation of the parse's tokens in source order (so the source text itself when the grammar has no wrapping pattern or uncaptured pattern text), returns the number of bytes written, and passes on the first error of the writer. (Excluded: results of escapes, and a delimited repetition directly of an unnamed one of the same direction, whose trees leave open which of the two made them.)",
  ["inputs", "programs"], "for every grammar, every source text it accepts and every writer failure point",
  "optional separators, associativity and lookahead each need their own inverse",
  ["parser/unparse.go", "parser/terms.go"], [("Term.Unparse", "parser/unparse.go"), ("Delim.LRTerms", "parser/parser.go")],
  observe=["Parsers.Unparse"])
p("C21", "Compiled parsers are immutable and their results independent of history",
  "Parsing, converting, unparsing or printing never modifies the compiled parser, its grammar, or a tree returned earlier, and compiling never modifies the grammar it is given. Hence one parser can serve concurrent parses, and a parse's result depends only on the grammar, rule and input, not on what was parsed before or at the same time.",
  ["schedules", "histories", "inputs"], "for every interleaving and every sequence of uses of one compiled parser",
  "sharing bugs need a second use after or during the first that observes the write",
  ["parser/parser.go", "parser/terms.go", "ast/from_parsernode.go", "ast/to_parsernode.go", "wbnf/compile.go"],
  [("parsers hold no per-parse state; Scope is persistent", "parser/parser.go, parser/scope.go"), ("Compile clones before resolving stacks", "parser/parser.go")],
  observe=["Parsers.Parse", "Grammar.Compile", "ast.FromParserNode"])
p("C22", "Results do not depend on map iteration order or random draws",
  "Compiling the same grammar text and parsing the same input give the same outcome, the same tree, the same syntax tree and the same rendered grammar, generated code, tree printing and grammar comparison on every run, whatever order the runtime iterates over maps and whatever random commit identifiers are drawn.",
  ["schedules", "inputs"], "for every map iteration order and every sequence of distinct random draws",
  "a test run sees one of the iteration orders",
  ["parser/parser.go", "parser/scope.go", "ast/node_string.go", "ast/treeview.go", "wbnf/cutpoints.go", "cmd/codegen/types.go"],
  [("sorted keys before output", "parser/terms.go, ast/node_string.go, cmd/codegen"), ("Compile iterates over the rule map", "parser/parser.go")],
  observe=["Grammar.Compile", "Grammar.String", "ast.BuildTreeView"])
p("C23", "Nested grammars shadow, inherit and stay invisible outside",
  "Inside a term with a nested grammar, a rule reference means the nested definition if there is one and otherwise the enclosing one, at any depth; nested definitions are invisible outside the term and do not affect rules of the same name elsewhere. Stacks and the wrapping pattern work in nested grammars as at top level, an enclosing wrapping pattern applying unless the nested grammar has its own.",
  ["inputs", "programs"], "for every nesting of grammars and every source text",
  "shadowing, inheritance and depth combine; tests have two nested grammars",
  ["parser/parser.go"], [("ScopedGrammar.Parser builds its own cache and forwards unresolved rules", "parser/parser.go")],
  observe=["Grammar.Compile", "Parsers.Parse"])
p("C24", "External references and escapes see the scope and control what is consumed",
  "An external reference calls the registered handler once at that point of the input with the values matched so far by name, and takes its tree, what it consumed, and its error as the result; an unregistered reference is a parse error. A registered escape is tried before every term: between its opening and closing delimiters the handler's result replaces the term, a missing closing delimiter is an error, and without the opening delimiter parsing is unaffected.",
  ["inputs", "programs"], "for every grammar with external references, every handler behaviour and every source text",
  "tests register one handler that always succeeds",
  ["parser/parser.go", "parser/scope.go", "parser/externals.go"], [("ExtRef.Parse, parseEscape", "parser/parser.go"), ("WithExternals", "parser/scope.go")],
  observe=["Parsers.ParseWithExternals"])
p("C25", "Generated Go source denotes the same grammar",
  "The Go expression the code generator writes for a grammar is syntactically valid and, evaluated, is a grammar equal to the one it was generated from, for every kind of term, literal and pattern text, nested grammar and option.",
  ["programs"], "for every grammar",
  "quoting and field printing must be right for every literal and option combination",
  ["cmd/codegen/grammar.go"], [("MakeGrammarString, walkTerm", "cmd/codegen/grammar.go")], observe=["codegen.MakeGrammarString"])
p("C26", "Generated accessor types mirror the grammar's names",
  "For every rule and named term of a grammar the code generator produces exactly one wrapper type with accessors for exactly the names and tokens the rule's syntax tree can hold, returning a single value or a list as the tree does, and Go identifiers derived from rule names are valid, exported and stable.",
  ["programs"], "for every grammar",
  "the accessor set depends on how often and where each name occurs",
  ["cmd/codegen/types.go", "cmd/codegen/typebuilder.go", "cmd/codegen/idents.go", "cmd/codegen/pushtype.go"],
  [("type builder walks the terms", "cmd/codegen/typebuilder.go"), ("name mangling", "cmd/codegen/idents.go")], observe=["codegen.MakeTypesFromGrammar", "codegen.GoName"])
p("C27", "Grammar and tree comparison reports equal exactly for equal arguments",
  "Comparing two grammars, terms or parse trees reports no difference exactly when they are equal in structure, texts, names, bounds and options, whichever is given first, and never crashes; a reported difference locates a place where they really differ.",
  ["inputs", "programs"], "for every pair of grammars, terms or trees",
  "a missed field only shows for a pair that differs in just that field",
  ["parser/diff/terms.go", "parser/diff/nodes.go"], [("per-type Diff structs with Equal", "parser/diff/terms.go"), ("NewNodeDiff", "parser/diff/nodes.go")],
  observe=["diff.NewTermDiff", "diff.Grammars", "diff.NewNodeDiff"])
p("C28", "Tree printing shows every item once, at its depth, in order",
  "Printing a tree gives one line for its root and one for each line of text of every item, in order of the children, each item indented by one prefix per level that shows whether its ancestors have further siblings; sorting orders items by their rank: the number an item starts with, else the least rank among its own items, else before all others. Nothing is lost, duplicated or attached to another parent.",
  ["inputs"], "for every tree of items and every item text",
  "prefixes depend on the position of every ancestor among its siblings",
  ["gotree/gotree.go"], [("printer.printItems/printText", "gotree/gotree.go"), ("Rank, SortItems", "gotree/gotree.go")], observe=["gotree.Tree.Print"])
p("C29", "Parse failures are returned as error values that can be printed",
  "A parse that does not succeed returns an error value whose message can be rendered for every grammar and input, naming the rule being parsed (or, where a commit point ended the parse, at least the terminal) and what was expected and found; errors raised by external handlers that request a stop pass through choices and repetitions unchanged.",
  ["inputs", "programs"], "for every grammar and every rejected source text",
  "messages are built lazily from whatever the failing path left behind",
  ["parser/error.go", "parser/parser.go"], [("newParseError, walkErrors", "parser/error.go"), ("StopError handling", "parser/error.go")], observe=["Parsers.Parse", "error.Error"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
