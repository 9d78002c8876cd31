#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))
B, S, O, X = "base/", "string/", "object/", "extra/"

p("C01", "Combinators obey PEG semantics for every grammar and input",
  "For every grammar built from sequence, grouping, ordered choice, repetition, optional, predicate and zero-width combinators over the library's terminals (unbounded repetitions having bodies that consume input), every input and every starting position, parsing terminates with exactly the outcome PEG semantics prescribe: matched, unmatched or error, the same next position, and the same AST sequence in source order. Ordered choice takes the first alternative that matches and no other; a sequence needs all of its members in order; repetition is greedy and never gives back.",
  ["programs","inputs"], "all grammars up to a node bound over a small terminal alphabet x all inputs up to a length bound x all start positions",
  "The tests run three fixed example grammars; base/TestA compares true with true, so no combinator is tested on its own and no grammar other than the examples is ever explored.",
  [B+"base.go", B+"parsers.go"],
  [("generic combinator loop over iterations and children", B+"base.go:BaseParser"),("leaf wrapper", B+"base.go:LightBaseParser"),("combinator constructors", B+"parsers.go")],
  [("ParserContext", "position, AST stack, status threaded by value", B+"types.go")], ["ParserFn result"])
p("C02", "Abandoned attempts leave no trace in position or AST stack",
  "After an alternative, iteration, optional part or predicate is abandoned, the parse continues with exactly the position and AST stack it had before that attempt, no matter what the attempt consumed, pushed, grouped, erased or transformed. AST entries produced earlier in the parse, or supplied by the caller in the starting context, are never altered, lost or reordered by later attempts, for any depth and spare capacity of the stack. A transformer sees exactly the entries produced by the parser it wraps.",
  ["programs","inputs"], "all failing/succeeding attempt shapes up to a bound x all stack prefill sizes and capacities around the growth boundary",
  "Rollback works through slice headers sharing one backing array, so it breaks only for particular interleavings of push, abandon and growth; the tests never inspect the stack around an abandoned attempt nor grow it past its initial capacity.",
  [B+"base.go", B+"parsers.go", S+"new.go", O+"new.go"],
  [("saved/prev context restore", B+"base.go:BaseParser"),("truncate-and-append of transformed section", B+"base.go:BaseParser")],
  [("AstStack", "shared backing array with capacity 1024", S+"new.go")], ["ParserContext.AstStack"])
p("C03", "Repetition honours its minimum and maximum exactly",
  "A repetition with bounds {min,max} matches if and only if at least min consecutive iterations of its body match, and then consumes exactly min(max, available) iterations; a negative bound means no limit on that side. The result reports how many iterations matched. The named forms (once, optional, zero-or-more, one-or-more) are exactly {1,1}, {0,1}, {0,unbounded}, {1,unbounded}.",
  ["inputs","configurations"], "all (min,max) pairs in a range including negatives x all available counts x body shapes",
  "No test uses explicit bounds at all, and the boundary cases (min=max, max=0, max<min, negative, partially matching last iteration) are never reached.",
  [B+"base.go", B+"parsers.go", B+"const.go"],
  [("iteration loop and minimum check", B+"base.go:BaseParser"),("quantifier constants", B+"const.go")],
  [("qtyOnce..qtyOneOrMoreTimes","shared quantifier records",B+"const.go")], ["ParserContext.Quantity","ParserContext.Position"])
p("C04", "Look-ahead and look-behind are zero-width and exact",
  "Positive and negative look-ahead and look-behind never move the position, never leave AST entries behind, and never change what follows, whatever the predicate body does and whatever state the incoming context carries. Look-ahead matches exactly when its body matches here (negative: does not match). Look-behind {min,max} matches exactly when its body matches from some start between min and max source units back that lies inside the source (negative: from none).",
  ["programs","inputs"], "all predicate bodies up to a node bound, nested, x all inputs x positions x (min,max) windows x incoming context states",
  "No test contains any look-ahead or look-behind; restoring state after a predicate depends on what its body did.",
  [B+"parsers.go", B+"base.go"], [("rewind property", B+"base.go:BaseParser"),("offset scan", B+"parsers.go:lookBehindBase")], (), ["ParserContext"])
p("C05", "An error ends the whole parse and is reported intact",
  "Once any parser, transformer, production rule or error assertion raises an error, no enclosing choice, repetition, optional, grouping, predicate or recursion turns it into a match or a plain mismatch or tries anything else. The caller receives error status together with the original error value, and the position at which it was raised. Without an error the caller never receives one.",
  ["programs","inputs","fault_sequences"], "every grammar shape up to a bound x every place and visit at which the error is injected",
  "The tests only observe that two fixed inputs give some error; which error, where, and through which enclosing combinators is not examined.",
  [B+"base.go", B+"parsers.go", B+"production.go"], [("status normalisation and early return", B+"base.go:BaseParser"),("leaf status normalisation", B+"base.go:LightBaseParser"),("error return in offset scan", B+"parsers.go:lookBehindBase")], (), ["error result","ParserContext.MatchStatus","ParserContext.Position"])
p("C06", "One parser instance may be used concurrently",
  "A parser built once may be used by any number of goroutines at the same time, each with its own context, including on its very first use and for recursive grammars. Under every interleaving each call returns exactly what it would return alone, and there are no data races.",
  ["schedules"], "all interleavings of 2-3 concurrent parses at statement granularity up to a preemption bound, plus every pair of API families under the race detector",
  "No test starts a goroutine; the example front ends keep one package-level parser, so a lazily initialised or hoisted variable is shared by all callers.",
  [B+"parsers.go", B+"base.go", S+"transformers.go", X+"extra.go"], [("lazy construction of recursive parsers", B+"parsers.go:Indirect"),("per-call context passed by value", B+"base.go:BaseParser")],
  [("Indirect's cached parser","written on first use",B+"parsers.go:Indirect"),("package-level rule tables","shared by all parses","_examples/*/precedence.go")], ["results of concurrent calls"],
  "none in the tree: statement-level scheduling points are woven into a build overlay by the check")
p("C07", "Parsing is a pure function of grammar, input and context",
  "Calling a parser never changes what any later call of it, of any parser sharing sub-parsers with it, or of any other parser returns: same input and context, same outcome, whatever was parsed before and however it ended. The caller's context value and input are not modified by a parse, and results already returned stay intact when further independent inputs are parsed.",
  ["histories"], "all call histories up to a depth over a menu of (parser, input) including failing, erroring and panicking ones",
  "Each test calls a freshly built or package-level parser with unrelated inputs and never compares a repeated call with a first call.",
  [B+"base.go", B+"parsers.go", B+"production.go", S+"parsers.go"], [("closures keep only construction-time configuration", B+"base.go"),("fresh contexts per rule", B+"production.go:newContext")],
  [("closure variables","configuration captured at construction",B+"base.go")], ["repeated results"])
p("C08", "Recursive grammars work to any nesting depth",
  "A grammar that refers to itself, directly or mutually, through the deferred-construction combinator can be constructed without recursing, and then recognises exactly the recursively defined language with correctly nested AST groups at any nesting depth the stack allows. The deferred builder is not run while the grammar is being constructed, and its parser behaves exactly like the one the builder returns.",
  ["inputs","programs"], "all bracket-like strings up to a length bound, and depth sweeps, for direct and mutual recursion",
  "Only the formula examples recurse, to depth four.",
  [B+"parsers.go"], [("deferred construction", B+"parsers.go:Indirect")], [("cached parser","built on first call",B+"parsers.go:Indirect")], ["ParserFn result","builder invocations"])
p("C09", "Character-class terminals accept exactly their documented characters",
  "For every Unicode code point, each predefined character terminal (any, whitespace, whitespace without line break, line break, letter, digit, alphanumeric, binary, octal, hexadecimal) matches if and only if the character is in its documented set, consumes exactly that one character, and yields its text. At the end of the source none of them matches. In ill-formed UTF-8 each bad byte counts as one replacement character.",
  ["inputs"], "all 1,114,112 code points, all one- and two-byte sequences and all ill-formed prefixes, at every offset of a context",
  "The tests named after these terminals have empty bodies.",
  [S+"parsers.go", S+"util.go", S+"const.go"], [("rune decoding and set tests", S+"parsers.go"),("set predicates", S+"util.go")], (), ["ParserFn result"])
p("C10", "Literal, set and range terminals match exactly what they are given",
  "A literal matches exactly when the source continues with it (case-insensitively: with a case variant of it) and consumes just that; a set matches the first listed member the source continues with, and a negated set consumes one character exactly when no member matches and the source is not at its end. A range terminal matches one character exactly when it lies in one of the inclusive ranges (negated: in none), and a function-defined class exactly when the function accepts it. None ever reads or matches beyond the end of the source.",
  ["inputs","configurations"], "all sources up to a length bound over a mixed-width alphabet x all positions x all literal, set and range arguments up to a bound",
  "TestSeq has two cases; the other tests of these terminals are empty.",
  [S+"parsers.go"], [("bounds check and comparison", S+"parsers.go")], (), ["ParserFn result"])
p("C11", "Tokens carry the exact text and location they were read from",
  "Every token a terminal produces records the source position where it starts, the length it consumes, its text or value and its class; positions of successive tokens never overlap or run backwards and tokens together with skipped parts cover the consumed source. Combined tokens keep the start position of their first part; zero-width insertions carry the current position and no length. The context reports the next unread position.",
  ["inputs","programs"], "all terminals of both kinds x all sources up to a bound, in sequences of terminals of differing widths",
  "TestSeq compares tokens with an equality that ignores locations, so no location is ever checked.",
  [S+"parsers.go", O+"parsers.go", S+"transformers.go", B+"parsers.go"], [("token construction in each terminal", S+"parsers.go"),("zero-width insertion", B+"parsers.go:Zero")], (), ["Ast.SourcePosition","Ast.Value"])
p("C12", "Word-boundary assertions hold exactly at word boundaries",
  "The ASCII and Unicode word-boundary assertions match exactly where a word character meets a non-word character or the start or end of the source, are zero-width, and never match elsewhere, whatever characters of whatever encoded length surround the position. The word characters are [0-9A-Za-z_$] for the ASCII one, and identifier-continue characters, $, U+200C and U+200D for the Unicode one.",
  ["inputs"], "all pairs of neighbouring characters drawn from every code point on either side, and all short strings, at every position",
  "TestWordBoundary is empty; the formula examples only use the assertion next to ASCII digits.",
  [S+"parsers.go", S+"util.go", X+"extra.go", X+"util.go"], [("search for the previous character", S+"parsers.go:WordBoundary"),("word sets", X+"util.go:isUnicodeWord")], (), ["ParserFn result"])
p("C13", "Object terminals match exactly the listed values",
  "Over any slice source, the any-value terminal consumes one element whenever one is left, a value sequence matches exactly when the next elements equal it element by element, a value set exactly when the next element equals a member (negated: none), a function class exactly when the function accepts the element, and the end assertion exactly at the end. Matching consumes exactly the matched elements, yields them, and never reads past the end of the slice.",
  ["inputs","configurations"], "all slices up to a length bound over a small value alphabet x all positions x all argument lists up to a bound, for several element types",
  "object/TestA compares true with true.",
  [O+"parsers.go", B+"ast.go"], [("element comparison through the slice abstraction", O+"parsers.go"),("equality", B+"ast.go:ItemEquals")], (), ["ParserFn result"])
p("C14", "List transformers implement their stated stack operation",
  "On every AST list, erase empties it, push and prepend add one entry at the end or front, pop drops the last, exchange swaps the last two, roll by n rotates (from the bottom for positive n, from the top for negative n), grouping wraps all in one list entry, and the setters change only the stated fields of the first entry. Lists too short for an operation are returned unchanged, none of them panics, and none modifies the list it was given. In a chain, transformers apply left to right, each to the previous one's result, and the first error stops the chain.",
  ["inputs","histories"], "all operation sequences up to a depth on all lists up to a length bound",
  "No test calls any of these transformers except through the examples (erase, class name, grouping of rules).",
  [B+"transformers.go", B+"base.go"], [("copy then modify", B+"transformers.go"),("chain application", B+"base.go:BaseParser")], (), ["AstSlice result","input AstSlice"])
p("C15", "Concatenation and trimming preserve the text exactly",
  "Concatenation yields one string entry holding the texts of all given entries in order, for any number of entries including none; trimming removes exactly the leading and/or trailing run of the documented whitespace characters and nothing else. An entry that is not a string gives an error, never a wrong text or a panic.",
  ["inputs"], "all lists of texts up to a bound over an alphabet containing every whitespace character and near-misses, and non-string entries at every place",
  "TestConcat, TestTrim, TestTrimStart and TestTrimEnd are empty.",
  [S+"transformers.go"], [("builder concatenation and cut set", S+"transformers.go")], (), ["AstSlice result"])
p("C16", "Number and character conversions are exact or report an error",
  "Converting matched text to a signed, unsigned or floating number in any radix yields exactly the value the text denotes, with the matching type, or an error when the text is empty, malformed or out of range; never a wrong value and never a panic. Rune, integer and string conversions are mutually inverse on valid code points.",
  ["inputs"], "all numeral-like texts up to a length bound in all radices, all range boundaries, all code points",
  "TestParseInt, TestParseUint and TestParseFloat are empty.",
  [S+"transformers.go"], [("strconv-based conversion", S+"transformers.go")], (), ["AstSlice result","error result"])
p("C17", "An AST entry's type tag never lies about its value",
  "In every AST entry the library produces, from any terminal, combinator or transformer, a type tag naming a concrete kind (rune, int, uint, float, bool, string, cons cell, AST list) is accompanied by a value of exactly that kind. Consumers that trust the tag (tree traversal, concatenation, equality) therefore never read a value as another type.",
  ["programs","inputs"], "all terminals x all transformer chains up to a depth",
  "Traversal reinterprets memory on the strength of the tag; no test checks any tag other than String on one literal.",
  [B+"ast.go", O+"parsers.go", S+"transformers.go", X+"transformers.go"], [("tag set next to the value", "every Ast literal")], (), ["Ast.Type","Ast.Value"])
p("C18", "Number literals are recognised exactly and normalised",
  "Each number-literal parser (binary, octal, hexadecimal, integer, float, general numeric) consumes exactly the longest prefix its documented grammar defines and yields the digits with separators removed and sign, point and exponent kept. Whatever text it yields is accepted by the corresponding standard number conversion and denotes the same number; anything else at the position is unmatched without consuming.",
  ["inputs"], "all strings up to a length bound over an alphabet of digits, separators, signs, point, exponent markers and a foreign character",
  "extra/ has no tests; only integers without separators occur in the examples.",
  [X+"extra.go"], [("combinator grammars", X+"extra.go")], (), ["ParserFn result"])
p("C19", "Identifier parsers accept exactly the documented identifiers",
  "The ASCII and Unicode identifier parsers consume exactly the longest run consisting of one allowed first character followed by allowed continuation characters, for every code point in either place, and yield it as one string. At any other character they are unmatched and consume nothing.",
  ["inputs"], "all code points as first, second and terminating character, and all short ASCII strings",
  "extra/ has no tests.",
  [X+"extra.go", X+"util.go"], [("class functions", X+"extra.go")], (), ["ParserFn result"])
p("C20", "Date and time literals are recognised, normalised and converted exactly",
  "The date, time and date-time parsers match exactly the documented ISO 8601 shapes and yield a normalised text with seconds, nine fraction digits and numeric offset filled in. Converting that text gives precisely the instant the literal denotes, in UTC, and an impossible calendar date, time or offset gives an error, never a different instant.",
  ["inputs"], "all field values crossed pairwise, all optional-part combinations, all fraction lengths and all single-character edits of valid literals",
  "extra/ has no tests.",
  [X+"extra.go", X+"transformers.go"], [("combinator grammars", X+"extra.go"),("layout parsing", X+"transformers.go")], (), ["ParserFn result","time.Time value"])
p("C21", "Production rules rewrite by precedence and direction until accepted",
  "Applying production rules to a token list repeatedly rewrites the leftmost (or, for right-to-left levels, rightmost) place where a rule of the highest applicable precedence level matches, earlier rules first, replacing just the matched tokens, until the acceptance pattern matches. For operator grammars this yields exactly the tree given by precedence and associativity. If no rule applies and the result is not accepted, or a rule raises an error, an error is reported, and entries of the given list are never modified.",
  ["programs","inputs"], "all small rule systems over a token alphabet x all token lists up to a length bound, plus all operator tables x all expressions up to a length",
  "Only one fixed four-operator table is used by the examples, with one right-to-left level.",
  [B+"production.go"], [("restart from highest precedence after each rewrite", B+"production.go:ProductionRule")], (), ["AstSlice result","error result"])
p("C22", "Case matching on parsed entries picks the first matching case",
  "A case-match step evaluates its cases in order, takes the first whose condition holds, and replaces exactly the up-to-n most recent AST entries (fewer if fewer exist) by that case's transformed result, leaving everything below untouched and consuming no input. If no case holds it is unmatched and changes nothing; a transformer error is reported as an error. The ready-made conditions hold exactly when the newest entry's value has the stated type and equals one of the listed values.",
  ["programs","inputs"], "all case lists up to a bound x all stacks up to a depth x all n",
  "No test or example uses case matching.",
  [B+"match.go"], [("case scan and section replacement", B+"match.go:Match"),("conditions", B+"match.go:TopIs*")], (), ["ParserFn result"])
p("C23", "Tree traversal visits, rewrites and unwinds exactly as specified",
  "Traversal calls the outbound callback before a node's children and the return callback after them, in source order, once per visit; every entered node gets exactly one of the return callback or, when a descendant failed or threw, the child-error callback, innermost first. Lazy nodes' children are not visited; in last-item mode break, continue and relative jumps move the execution position as requested and the node becomes the list holding only the last normally completed child. The tree passed in is never modified.",
  ["inputs","histories"], "all trees up to a node bound x all assignments of callback answers up to a deviation bound",
  "No test calls traversal.",
  [B+"ast.go", B+"unsafe.go"], [("recursive traversal with per-mode loops", B+"ast.go:Traverse")], (), ["callback log","returned Ast"])
p("C24", "AST slices behave as a list abstraction with structural equality",
  "Through the slice abstraction, get returns what was last set at that index, re-slicing shares elements with its origin while copying does not, and making yields the requested length and capacity, for all index ranges. Element equality is an equivalence relation that holds exactly for entries with equal class, type and (recursively) equal value, independent of location.",
  ["histories","inputs"], "all operation sequences up to a depth on slices and their views, and all pairs and triples of small nested entries",
  "Only equality of single string tokens is exercised, inside the string tests.",
  [B+"ast.go"], [("AstSlice methods", B+"ast.go")], (), ["SliceLike results"])
p("C25", "Boxes read back what was written and fail before initialisation",
  "Reading a box after writing it through any accessor suited to its element type returns the written value, the write is visible in the underlying container under that key and nowhere else, and indexed or keyed sub-boxes address exactly the requested element. A not-yet-initialised box fails loudly on every read until its first write of any kind, and never afterwards.",
  ["histories"], "all operation sequences up to a depth over boxes of every kind on shared containers",
  "No test uses boxes.",
  [B+"box.go"], [("reflection accessors", B+"box.go"),("initialised flag", B+"box.go:NotInitializedMapContainerReflectionBox")], [("container","underlying map, slice or variable",B+"box.go")], ["Box results","container contents"])
p("C26", "Reported line, column and excerpt are the true location",
  "For every source text and position, the reported line is one plus the number of line breaks (CR LF, CR or LF) before it, the line index is the start of that line, and line index plus column minus one is the position. The excerpt shows exactly that line, preceded by the previous line if any, with tabs expanded, and the marker stands under the reported column.",
  ["inputs"], "all texts up to a length bound over an alphabet with tab, CR, LF and multi-byte characters x all positions x all tab sizes",
  "No test checks a location; the examples only print it.",
  [B+"util.go"], [("single scan", B+"util.go:GetLineAndColPosition")], (), ["LineAndColPosition"])
p("C27", "Debug tracing observes without changing the parse",
  "A traced parser returns exactly what the untraced one returns on every input, and the tracer receives for every traced parser invocation one before event and one matching after event (or a panic event, the panic continuing unchanged), properly nested, with the scope path, a number identifying the parser instance, its class name, and the context or result at that point. Parsers built outside the traced construction are not traced, and nested scopes restore the outer one.",
  ["programs","inputs"], "all grammars up to a node bound x all inputs, traced and untraced, nested scopes, panicking children",
  "No test uses tracing.",
  [B+"tracer.go", B+"base.go"], [("wrapping at construction", B+"tracer.go:tracer"),("saved and restored construction state", B+"tracer.go:DebugTrace")], [("traceEnabled/traceScope/parserTracer","construction-time globals",B+"tracer.go")], ["tracer callbacks"])
p("C28", "The CSV parser reads every document as its grammar says",
  "For every text, the CSV parser returns the rows of trimmed plain cells and verbatim quoted cells (two double quotes inside quotes meaning one, separators and line breaks inside quotes being data), any run of line breaks ending a row, trailing blank rows dropped. Text that is not a CSV document, including an unterminated quote, gives an error and no rows.",
  ["inputs"], "all texts up to a length bound over an alphabet of separators, quotes, blanks, every line-break character and letters",
  "Five fixed inputs are tested, none with an escaped quote, a blank or an empty row.",
  ["_examples/csv/parser.go"], [("grammar", "_examples/csv/parser.go")], (), ["csv.Parse"])
p("C29", "Writing a table as CSV and reading it back gives the same table",
  "For every table of valid-UTF-8 cells in which every row has a cell and no row is a single empty cell, converting it to CSV text and parsing that text returns exactly the same table, whatever separators, quotes, blanks or line breaks the cells contain. Parsing any text that gives such a table, converting the rows and parsing again changes nothing further.",
  ["inputs"], "all tables up to a size bound with cells from all short strings over an alphabet of separators, quotes, blanks and letters",
  "No test calls the writer.",
  ["_examples/csv/marshal.go","_examples/csv/parser.go"], [("quoting decision", "_examples/csv/marshal.go:toCsvRow")], (), ["csv.ToCsv","csv.Parse"])
p("C30", "CSV struct mapping loses, invents and misplaces nothing",
  "Marshalling places each struct field's value in the column named by its tag or field name, once, and leaves all other columns blank; unmarshalling a header and rows sets each matching settable field from its column and leaves the others untouched, so that marshal then unmarshal restores the values. Input that does not fit (missing cell, malformed or out-of-range number, wrong target type) gives an error and leaves the target unchanged; nothing panics.",
  ["inputs","configurations"], "all column lists up to a bound (missing, extra, reordered, blank) x record types x field values including range limits x malformed rows",
  "No test calls marshal or unmarshal.",
  ["_examples/csv/marshal.go"], [("column and field maps", "_examples/csv/marshal.go")], (), ["csv.Marshal","csv.Unmarshal"])
p("C31", "The formula evaluator computes ordinary integer arithmetic",
  "For every text, the formula evaluator accepts exactly well-formed integer expressions over + - * /, unary minus, parentheses and blanks, and returns the value given by the usual precedence and left associativity in wrapping 64-bit arithmetic with truncating division. Anything else, including division by zero and numbers out of range, gives an error; it never panics and always terminates.",
  ["inputs"], "all texts up to a length bound over an alphabet of digits, operators, parentheses, blanks and a foreign character",
  "Thirteen fixed inputs are tested, none dividing.",
  ["_examples/formula/formula.go","_examples/formula/precedence.go","_examples/formula/helper.go"], [("grammar and rules", "_examples/formula")], (), ["formula.Parse"])
p("C32", "The RPN converter emits the postfix form of the expression",
  "For every text, the RPN converter accepts exactly the well-formed integer expressions and emits the postfix order of the expression tree given by precedence and associativity, with unary minus folded into number literals and emitted as an operator otherwise. Evaluating its output, each minus with its own operand count, gives what evaluating the expression gives.",
  ["inputs"], "all texts up to a length bound over an alphabet of digits, operators, parentheses and blanks",
  "Nine fixed inputs are tested.",
  ["_examples/torpn/torpn.go","_examples/torpn/precedence.go"], [("grammar and rules", "_examples/torpn")], (), ["torpn.Parse"])
p("C33", "Example front ends are total and point at a real place",
  "For every byte string, including ill-formed UTF-8, control characters and deep nesting, the CSV, formula and RPN front ends return either a result or an error, never both, never a panic, and always terminate. An error's message names a line and column that exist in the text and shows that line of it.",
  ["inputs"], "all byte strings up to length two, all strings up to a bound over a mixed alphabet, and size sweeps",
  "Only three erroneous inputs are tested, and only for being errors.",
  ["_examples/csv/parser.go","_examples/formula/formula.go","_examples/torpn/torpn.go",B+"util.go"], [("error formatting", "Parse functions")], (), ["Parse functions"])
p("C34", "The WebAssembly facade returns what the native parsers return",
  "For every text, the functions exported to JavaScript return the same rows, and the same number, as the native CSV and formula parsers, an empty list or zero when those report an error, and keep working after erroneous input and after being called without arguments.",
  ["inputs","histories"], "all texts up to a length bound, in sequence, through the compiled module in node",
  "wasm/ has no tests and is not compiled by the test suite.",
  ["wasm/main.go"], [("value conversion", "wasm/main.go")], (), ["JavaScript globals parseCsv, parseFormula"])
p("C35", "Context constructors and user tags reach every parser and transformer",
  "A new context starts at position zero with an empty AST and carries the given source and user tag; that tag and source reach, unchanged, every parser and transformer invoked during the parse, at whatever depth, and the final result; production rules, whose source is the list of entries, get the tag. A custom parser's change to the tag follows the same commit-or-rollback rule as the rest of the context.",
  ["programs","inputs"], "all grammar shapes up to a bound with probes at every leaf and transformer, over string and object contexts",
  "No test or example uses a tag.",
  [S+"new.go", O+"new.go", B+"production.go", B+"base.go"], [("context passed by value", B+"base.go"),("tag copied to rule contexts", B+"production.go:newContext")], (), ["ParserContext.Tag"])

p("C36", "Custom parsers built on the public base keep its contract",
  "A parser a user builds on BaseParser behaves, for every combination of its properties, sub-parsers, implementation function and transformers, as those say. An iteration runs the sub-parsers in order (with ThereExists: up to the first that matches) and then the function, which is told how many matched, where the parser's own entries begin and how many iterations came before; a mismatch of either abandons that iteration only, an error ends the parse. Bounds and negation then decide the match; on a match the function is called once more, with -1 and the number of iterations, and may still turn it into a mismatch or an error; Rewind then restores the starting position and stack; the transformers come last, in order, on exactly the parser's own entries. A leaf built on LightBaseParser has the status, error, position and entries of its function, an error value always meaning error status.",
  ["programs","configurations","inputs"], "all combinations of bounds, properties, function behaviours, transformers and sub-parsers from finite pools x all inputs up to a length bound, and custom parsers nested in all combinators",
  "The tests define no parser of their own; the order of abandoning, negating, finishing, rewinding and transforming only shows in combinations.",
  [B+"base.go", B+"types.go"], [("generic loop and final call", B+"base.go:BaseParser"),("leaf wrapper", B+"base.go:LightBaseParser")], (), ["calls of the implementation function and transformers","ParserFn result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
