#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/genprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LEX="internal/lexer/lexer.go"; TOK="internal/lexer/tokens.go"; PAR="internal/parser/parser.go"; SEL="internal/parser/selectors.go"
PRI="internal/printer/printer.go"; MAP="internal/printer/sourcemaps.go"; TRA="internal/transformer/transformer.go"
API="api.go"; RES="resolver/node_resolver.go"; LOG="internal/logging/logging.go"; SRC="internal/sources/source.go"
WALK="internal/ast/walk.go"; PLUG="esbuildplugin/plugin.go"; ASTF="internal/ast/"

prop("C01","Parsing any input terminates and never crashes",
 "For every byte sequence offered as a stylesheet, parsing finishes and either yields a stylesheet or returns an error to the caller. It never hangs, never grows without bound and never panics out to the caller.",
 ["inputs"],"every byte string (valid, truncated, malformed, non-UTF-8), in every grammatical position",
 "The tests parse a few dozen well-formed sheets; truncated, malformed and odd-byte inputs are unbounded and none is sampled beyond three lexer errors.",
 [LEX,PAR,SEL],[("token loop, every path must consume input",LEX+": Next"),("recover() boundary",PAR+": Parse"),("error recovery for declarations",PAR+": parseDeclarationOrFallback/parseRaw")],
 observe=["parser.Parse","cssc.Compile"])
prop("C02","Every syntax error points at a real place in the file",
 "Whenever a stylesheet is rejected, the error text names the file and a 1-based line and column that exist in it (the true line and column of the place the error is about), quotes that source line, and can always be rendered. A warning or error a transform reports about a stylesheet node does the same.",
 ["inputs"],"every rejected input, in every layout of lines, tabs and multi-byte characters, and every transform diagnostic",
 "Two tests compare one fixed message each; positions depend on every preceding byte.",
 [LOG,SRC,LEX],[("error formatting","%s: locationError.Error, AnnotateSourceSpan"%LOG),("line table built while lexing",LEX+": step"),("line lookup",SRC+": LineAndCol, FullLine")],
 observe=["error.Error()"])
prop("C03","Tokens follow the CSS Syntax Level 3 tokenizer",
 "For every input the lexer accepts, the sequence of tokens (kind, identifier/string/url text, numeric text and unit) equals the one CSS Syntax Level 3 defines for that input, with comments skipped and with escapes kept as written. In particular escapes, numbers with signs/decimals/exponents, hash and at-keyword names, url() forms, CDO/CDC, comments and newlines (LF, CRLF, CR, FF) are delimited where the specification says; NUL reads as U+FFFD.",
 ["inputs"],"every input text up to the stated length, arbitrary bytes",
 "Ten short token tests; the tokenizer's branching is over every byte combination and its corner cases are rare.",
 [LEX,TOK],[("token dispatch",LEX+": Next"),("would-start-identifier/number/escape predicates",LEX),("code point classes",TOK)],
 observe=["lexer.Next / Current / CurrentString / CurrentNumeral"])
prop("C04","Declarations keep their meaning through parse and print",
 "With no transforms, every accepted declaration appears in the output with the same property name, the same value (same tokens in the same order, still separated where separation matters), the same !important flag and the same position among its neighbours. Strings, functions, brackets, colours, numbers and commas are all preserved.",
 ["inputs"],"every accepted declaration block: all value forms and all nestings up to the bound",
 "Printer tests cover about forty fixed snippets; the integration test does not look at its output at all.",
 [PAR,PRI,"internal/ast/value.go"],[("value grammar",PAR+": parseDeclaration, parseValue, parseMath*"),("value printing",PRI+": print")],
 observe=["printer.Print(parser.Parse(x))"])
prop("C05","Selectors keep their meaning through parse and print",
 "With no transforms, every accepted selector list is printed with the same simple selectors, combinators, attribute operators, values and case flags, pseudo-classes with their arguments, and the same grouping, so that it matches exactly the same elements. Whitespace is only dropped or inserted where it does not change the selector.",
 ["inputs"],"every accepted selector list up to the bound",
 "Only a handful of selectors are printed by tests; attribute operators, nesting and quoting are never checked.",
 [SEL,PRI,"internal/ast/selector.go"],[("selector grammar",SEL+": parseSelectorList/parseSelector/parseAttributeSelector"),("selector printing",PRI+": print")],
 observe=["printer.Print(parser.Parse(x))"])
prop("C06","At-rules keep their prelude and contents",
 "With no transforms, every accepted at-rule (import, media, custom-media, keyframes and generic ones such as font-face, page or charset) is printed with the same name, the same prelude (import target and conditions, media queries with every feature, operator and value, keyframe name and selector lists) and the same block or terminating semicolon. Nothing in an at-rule is silently dropped or merged into the following rules. The contents of generic blocks are opaque declarations.",
 ["inputs"],"every accepted at-rule up to the bound",
 "Tests print one media rule, one keyframes rule and no other at-rule.",
 [PAR,PRI,"internal/ast/media.go","internal/ast/keyframe.go"],[("at-rule dispatch",PAR+": parseAtRule and the parse*AtRule functions"),("at-rule printing",PRI+": print")],
 observe=["printer.Print(parser.Parse(x))"])
prop("C07","Unparseable declarations are kept verbatim and stay contained",
 "A declaration the compiler cannot interpret is passed through with its source text unchanged and as one unit (up to the `;` or `}` that ends it outside brackets and strings), and the declarations before and after it, the end of its block and the following rules are unaffected by it. No part of it is split, duplicated, or swallowed together with neighbouring rules.",
 ["inputs"],"every malformed declaration text up to the bound, at every position of a block",
 "One snapshot test contains a single stray semicolon; all other malformed forms are untested.",
 [PAR],[("fallback to raw text",PAR+": parseDeclarationOrFallback, parseRaw")],observe=["printer.Print(parser.Parse(x))"])
prop("C08","An+B arguments denote the same set of elements",
 "Every An+B argument accepted in nth-child, nth-last-child, nth-of-type and nth-last-of-type is printed as an An+B expression with the same step and the same offset, including sign, zero and unit steps. The printed form is itself a valid An+B expression.",
 ["inputs"],"every accepted An+B text: all signs, digit strings, spacing variants up to the bound",
 "About thirty fixed spellings are tested; sign and zero combinations are not covered.",
 [SEL,PRI],[("An+B parsing",SEL+": parseANPlusB"),("An+B printing",PRI+": print (*ast.ANPlusB)")],observe=["printer.Print(parser.Parse(x))"])
prop("C09","Compiler output is stable and deterministic",
 "Printing is a pure function of the stylesheet: printing twice gives the same text and leaves the stylesheet unchanged, and parsing printed output and printing it again reproduces that text exactly.",
 ["inputs"],"every accepted input up to the bound",
 "No test prints a sheet twice or reparses output.",
 [PRI,PAR],[("printer has no state outside one Print call",PRI+": Print")],observe=["printer.Print"])
prop("C10","Source map numbers survive encoding",
 "Encoding any integer of magnitude below 2^30 as base64-VLQ yields 1 to 7 characters of the base64 alphabet that decode back to the same integer and the same length, alone or followed by any other encoded values. The encoding is the one the source map specification defines.",
 ["inputs"],"every 31-bit signed integer, any following bytes",
 "Four sample values are tested, no negative one.",
 [MAP],[("VLQEncode",MAP),("VLQDecode",MAP)],observe=["printer.VLQEncode","printer.VLQDecode"])
prop("C11","Source map mappings point to the right place",
 "When a source map is printed, each rule and at-rule has one mapping whose generated line and column are where that rule starts in the output and whose original line and column are where it starts in the source (0-based, columns in UTF-16 units), for every layout of the source. Mappings are ordered by generated position and the map text is well formed.",
 ["inputs"],"every source layout (rules, newlines of all kinds, comments, multi-line raw text, multi-byte text) up to the bound",
 "No test decodes a map.",
 [PRI,SRC,LEX],[("delta encoding of mappings",PRI+": addMapping"),("line/column lookup",SRC+": LineAndCol")],
 state=[("lastMappingState","previous mapping, base of deltas",PRI),("lastWritten","output already accounted for",PRI)],observe=["printer.Print with OriginalSource"])
prop("C12","The embedded source map is a valid map of the given source",
 "For every file path and file content, the trailing comment of the output carries base64 of a JSON object with version 3, that file path and exactly the original content (invalid UTF-8 as U+FFFD), and the CSS before the comment is identical to what is printed without a source map.",
 ["inputs"],"every path and content up to the bound, including quotes, backslashes, control and multi-byte characters",
 "No test looks at the map comment.",
 [PRI],[("map envelope",PRI+": printMapping")],observe=["printer.Print with OriginalSource"])
prop("C13","Offsets convert to the right line and column",
 "For every source text that has been parsed and every offset in it, the reported line is one plus the number of newlines before the offset and the column is one plus the distance from the start of that line; the line extent reported for the offset is exactly that line. Newlines are LF, CRLF (one newline), CR and FF.",
 ["inputs"],"every content and every offset up to the bound, including after parse errors were recovered from",
 "The span snapshot covers one LF-only file.",
 [SRC,LEX],[("line table",LEX+": step"),("binary search",SRC+": LineAndCol")],state=[("Lines","offset of the start of each line, ascending",SRC)],observe=["Source.LineAndCol","Source.FullLine"])
prop("C14","Every syntax node's span covers its source text",
 "Every node produced by parsing has a span with start not after end, inside the source, starting at the first byte of the text the node was parsed from, and children lie in source order inside their parent's extent. Rule spans end at their closing brace.",
 ["inputs"],"every accepted input up to the bound",
 "One snapshot of one file.",
 [PAR,SEL,LEX],[("TokenSpan/TokenEnd",LEX),("span bookkeeping in parse functions",PAR)],observe=["ast.Node.Location()"])
prop("C15","Walking a stylesheet visits every node exactly once",
 "Walking any stylesheet the parser can produce calls the visitor exactly once for the start node and for every node reachable below it, parents before children and siblings in source order, and never fails.",
 ["inputs"],"every tree the parser can build, up to the bound",
 "The only walk in the tests is the snapshot; most node kinds are absent from it.",
 [WALK],[("type switch over nodes",WALK+": Walk")],observe=["ast.Walk"])
prop("C16","Disabled transforms change nothing",
 "With all transforms off the output is what printing the parsed sheet gives, apart from top-level rules whose declaration block is empty; turning one transform on leaves sheets that do not use that feature unchanged. Every rule, declaration and at-rule appears exactly once and in the original order.",
 ["inputs","configurations"],"every accepted sheet up to the bound, every combination of transform options",
 "Four passthrough snippets are tested, none with imports.",
 [TRA,"transforms/transforms.go"],[("option guards",TRA+": Transform, transformNodes")],observe=["transformer.Transform"])
prop("C17",":any-link expands to exactly the link/visited selectors",
 "With the any-link transform on, a selector list matches the same elements as before: each selector is replaced by the selectors obtained by substituting :link or :visited for each :any-link independently, all other parts unchanged, and no :any-link is left in any rule the compiler parses, at the top level or inside media blocks.",
 ["inputs"],"every selector list up to the bound (any number and position of :any-link)",
 "Three snippets with one :any-link each.",
 [TRA],[("selector duplication",TRA+": transformSelectors")],observe=["transformer.Transform"])
prop("C18","Custom properties on :root are substituted everywhere",
 "With the custom-property transform on, a var() whose property is defined in a top-level rule selecting exactly :root is replaced by the values of its last definition, wherever that stands; an undefined one by its fallback, and one that is undefined without fallback or defined in terms of itself is left in place with a warning. Definitions under any selector other than exactly :root are neither used for substitution nor removed, and other declarations and their order are unchanged.",
 ["inputs"],"every arrangement of definitions, selectors and uses up to the bound",
 "Five snippets.",
 [TRA],[(":root collection",TRA+": transformNodes"),("substitution",TRA+": transformValues")],observe=["transformer.Transform"])
prop("C19","Custom media queries are replaced by their definition",
 "With the custom-media transform on, every use of a defined custom media query in a media rule is replaced, in place, by the defining query, uses of undefined names are kept, definitions disappear from the output, and no other query part is changed, lost or reordered.",
 ["inputs"],"every arrangement of definitions and uses up to the bound",
 "Two snippets.",
 [TRA],[("definition collection",TRA+": transformNodes"),("replacement",TRA+": transformMediaQueryParts")],observe=["transformer.Transform"])
prop("C20","Media feature ranges become equivalent min/max queries",
 "With the range transform on, each range query is replaced by min-/max- feature queries that accept the same values: inclusive bounds become the same number, exclusive ones the number moved by .001 into the range, each bound on the correct side, joined by 'and' when there are two. Units, the feature name and all other query parts are unchanged.",
 ["inputs"],"all four operators, one- and two-sided ranges, all numeric texts and units up to the bound",
 "Sixteen fixed queries.",
 [TRA],[("direction and offset tables",TRA+": transformMediaFeatureRange"),("arithmetic on the bound",TRA+": addToValue")],observe=["transformer.Transform"])
prop("C21","Calc reduction preserves the computed value",
 "With calc reduction on, a calc() is replaced only when the result is the single number or dimension the expression evaluates to, with the right unit, for all operators, precedence and nesting; an expression that cannot be reduced to one value keeps its meaning (only complete nested expressions may be reduced). Ill-typed sums, products and divisions and division by zero are reported and left as written.",
 ["inputs"],"every calc expression tree up to the bound, every operator and unit combination, symbolic numerals",
 "About fifteen fixed expressions.",
 [TRA],[("evaluation",TRA+": evaluateMathExpression, doMath"),("reduction guard",TRA+": transformValues")],observe=["transformer.Transform"])
prop("C22","Import modes: kept once, inlined in place, or followed",
 "Passing imports through prints each @import exactly once in place; inlining replaces each resolvable @import by the imported sheet's rules at that position (keeping and reporting unresolvable ones and cycles); following prints the @import and adds every transitively imported file to the output. Rules of the importing file stay in order.",
 ["inputs","configurations"],"every small import graph and placement of imports, all three modes",
 "One graph, and only the number of files is checked.",
 [TRA,API],[("import replacement",TRA+": transformNodes"),("following imports",API+": parseFile")],observe=["cssc.Compile Result.Files","transformer.Transform"])
prop("C23","Compilation is correct under every goroutine schedule",
 "However the concurrent parts of a compilation interleave, every readable entry has its own output under its own path, the output text does not depend on the schedule, every error is reported, no shared state is accessed without synchronisation, and the reporter is never called by two goroutines at once.",
 ["schedules","inputs"],"every interleaving within the preemption bound for up to three entries and their imports",
 "Every test compiles a single entry once, under one schedule.",
 [API],[("source index assignment",API+": addSource"),("output set, AST cache",API+": parseFile"),("print phase",API+": Compile")],
 state=[("sources/nextIndex","path to index assignment",API),("outputsByIndex","files to print",API),("astsByIndex","parsed sheets",API)],observe=["cssc.Compile"])
prop("C24","Compilation handles every import graph",
 "For every import graph, including self-imports, cycles, diamonds, missing files and files with errors, compilation terminates; each entry that can be read and parsed gets an output; each problem is reported through the reporter; and a problem in one file never removes or changes another file's output.",
 ["inputs","fault_sequences"],"every import graph and every subset of missing, unreadable or malformed files up to the bound",
 "One acyclic graph and one missing import are tested.",
 [API],[("recursive import processing",API+": parseFile"),("error isolation",API+": Compile")],observe=["cssc.Compile"])
prop("C25","Import specifiers resolve in node order to existing files",
 "For every file system layout, specifier and starting directory, resolution terminates and either returns an existing regular file or an error, never both and never neither; the file is the one the documented order selects: exact file, file with .css, the style entry of the directory's package.json, index.css; for relative specifiers from the importing directory, otherwise from the base URL and then node_modules from the nearest directory upward to the root.",
 ["inputs","configurations"],"every arrangement of files, directories and package.json contents at the candidate paths",
 "Eight fixture layouts.",
 [RES],[("candidate order",RES+": resolve, resolveAsDir"),("upward walk",RES+": resolveFromNodeModules")],observe=["resolver.NodeResolver.Resolve"])
prop("C26","The esbuild plugin reports every problem at its location",
 "When compiling through the esbuild plugin, each reported problem becomes exactly one esbuild message (a warning for a warning, an error for an error) whose file, line, column and line text are those of the problem's position in the source when it has one; with no problem the loaded contents are exactly the compiled output of that file.",
 ["inputs"],"every problem position and source layout up to the bound",
 "The plugin has no tests.",
 [PLUG],[("message conversion",PLUG+": toEsbuild"),("load callback",PLUG+": Plugin")],observe=["api.OnLoadResult"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
