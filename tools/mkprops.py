#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Parse is total: it always returns, and returns exactly one of result/error",
 "For every input string Parse returns after work bounded by the input's size, without panicking, overflowing the stack or exhausting memory, however deep the nesting, long the tokens or broken the encoding. It returns either a usable statement and a nil error, or a nil statement and a non-nil error, never both and never neither. A statement Parse accepted can in turn be formatted, walked and type-checked without a crash and at a cost bounded by its size.",
 ["inputs"], "every byte string: valid triggers, mutations of them, token soup, raw bytes, deeply nested and very long inputs",
 "Tests parse about 150 short hand-written strings; none is deeply nested, longer than the scanner's 1024-byte buffer, invalid UTF-8 or hostile, and none checks the statement returned next to an error.",
 ["parser.go","scanner/scanner.go","token.go","composite.go","geometry.go","datetime.go","primitive.go","format.go","typecheck.go","walk.go"],
 [("entry point and statement/error hand-off","parser.go:Parse, parse0"),("loops that must consume a token or stop at end of input","composite.go, geometry.go, datetime.go"),("recursion through the unary expression parser","parser.go:parseUnaryExpr")],
 ["return values of Parse","worker process exit status","block-execution counters of the instrumented build","heap size"])

prop("C02", "Nothing in an accepted input is silently ignored or altered",
 "When Parse accepts an input, every token of that input is accounted for in the returned statement: no trailing text, sign, list element, coordinate, clause or operand is dropped, merged, duplicated or overwritten. Only the optional punctuation and spelling variants of the language (separating commas and semicolons, the leading TRIGGER, keyword and selector letter case, redundant plus signs, number and duration notation, order and repetition of device ids) may leave no trace.",
 ["inputs"], "every accepted input, in particular near-miss mutations of valid triggers",
 "Tests look at one chosen field of a handful of statements; none compares a whole input with the whole statement, and no test has trailing or surplus tokens.",
 ["parser.go","composite.go","geometry.go","datetime.go","primitive.go"],
 [("end-of-input check","parser.go:parse0/parseTriggerStmt"),("separator handling in lists","composite.go:parseArrayExpr, datetime.go, geometry.go"),("sign handling","parser.go:parseUnaryExpr")],
 ["token multiset of the input against the token multiset of the statement"])

prop("C03", "Operator precedence, associativity and grouping",
 "The condition tree reflects the documented precedences (or < and < comparison, in, intersects and nearby < + and - < *, / and rem), operators of equal precedence group to the left, parentheses override both, and a range binds tighter than every operator. Operands keep their source order and every operator spelling (eq, ==, not eq, !=, in, not in, mod, rem, ...) yields its own operator.",
 ["inputs"], "every well-formed condition: any operators, any operand kinds, any nesting and length",
 "Tests contain a few two-operator conditions and never inspect the shape of the tree.",
 ["parser.go","token.go","keyword.go"],
 [("precedence climbing","parser.go:parseBinaryExpr"),("precedence table","token.go:Precedence"),("operator tokens","token.go:Scan, keyword.go")],
 ["shape of the tree returned by Parse"])

prop("C04", "Scalar literals denote exactly the value, unit and sign that was written",
 "Integers, floats, percents, speeds, distances, temperatures, pressures, durations, strings and booleans parse to exactly the kind, numeric value, unit and sign written in the source, wherever the literal stands: alone, as operand, in an array, on either side of a range, as selector property or variable value. A string's value is the text between its two quotes, verbatim. Negative percents, speeds, distances, pressures and durations, integers too large to represent and a sign in front of something that is not a number are rejected, never reinterpreted.",
 ["inputs"], "every scalar literal (all unit spellings, signs, magnitudes, string contents) in every syntactic position",
 "Tests cover one or two literals per unit, almost always alone, and check mostly positions rather than values; none puts a signed value in a range.",
 ["primitive.go","units.go","parser.go","composite.go"],
 [("literal and unit dispatch","primitive.go:parseAllTypes, parseIntTypes, parseFloatTypes"),("unit tables","units.go"),("sign state","parser.go:parseUnaryExpr, resetSign"),("string unquoting","parser.go:trim")],
 ["literal nodes of the statement returned by Parse"])

prop("C05", "Geometry literals keep every coordinate, in order, or are rejected",
 "Points, lines, polygons (with holes), multi-objects and collections parse to exactly the coordinates written, in order and with the written ring and object structure, signs and radius or margin. A geometry whose bracket depth or coordinate count does not fit its kind, which is unterminated, empty, mixes kinds in a multi-object, or has a radius or margin that is not a distance, is rejected.",
 ["inputs"], "every geometry literal, well-formed and malformed, of any size",
 "Tests check the source span of three well-formed geometries; no test looks at a coordinate and none feeds a malformed one.",
 ["geometry.go","primitive.go"],
 [("coordinate reader","geometry.go:parseGeometryExpr"),("multi-objects and collections","geometry.go:parseGeometryMultiObject, parseGeometryCollectionExpr"),("radius and margin","primitive.go:parseDistance")],
 ["geometry nodes returned by Parse","rejections"])

prop("C06", "Calendar literals are exact, and impossible ones are rejected",
 "date, time, weekday and month literals, single, as list or as range, parse to exactly the components written (AM/PM and seconds included) with lists in order and ranges keeping both ends. Out-of-range components (year 2022-2200, month 1-12, day 1-31, hour 0-24, minute and second 0-59), unknown names, and malformed, empty, unterminated or mixed list/range bodies are rejected.",
 ["inputs"], "every combination of components, units, list and range shapes",
 "Tests try about 30 literals at a few interior values; boundaries, most month names, list order and malformed separators are never exercised.",
 ["datetime.go"],
 [("component loops and range checks","datetime.go:parseDateExpr, parseTimeExpr"),("name tables","datetime.go:parseWeekdayExpr, parseMonthExpr")],
 ["calendar nodes returned by Parse","rejections"])

prop("C07", "Selectors and variables keep their name, devices, properties and binding",
 "A selector keeps its (lower-cased) name, exactly the set of device ids written, whether it addresses the current device, and its properties in order. The SET block yields exactly the variables written, in order, with names verbatim and the value written for each; defining a name twice, or as a bare reference or list of references to variables, is rejected, and a reference keeps the name written.",
 ["inputs"], "every combination of device ids, wildcard, properties, variable names and values",
 "Tests check six selectors one field at a time, and variable positions rather than values.",
 ["composite.go","parser.go","ast.go","primitive.go"],
 [("selector arguments and properties","composite.go:parseSelectorExpr, parseSelectorProps"),("duplicate check","ast.go:SetVar, isAssigned"),("SET block","parser.go:parseSet"),("references","primitive.go:parseVarExpr")],
 ["selector, variable and reference nodes returned by Parse"])

prop("C08", "REPEAT and RESET clauses set exactly what was written",
 "The repeat count, repeat interval and reset delay of a statement are exactly those written, and absent when the clause (or its optional part) is absent. Clauses out of order, repeated, or with a missing, negative or wrongly typed value or a wrong connecting word (anything but 'every' and 'after') are rejected.",
 ["inputs"], "every combination of present and absent clauses, values and units",
 "Seven hand-written tests; no test has wrong order, repeated clauses, wrong words or fractional durations.",
 ["parser.go"],
 [("clause parsers","parser.go:parseRepeat, parseReset, parseTriggerStmt")],
 ["clause fields of the statement","rejections"])

prop("C09", "Ill-formed statements are rejected",
 "Parse rejects every text that is not a statement of the language: lexical errors anywhere (unterminated string, bad escape, NUL, invalid UTF-8), unbalanced or missing brackets, missing or surplus operands, operators and clauses, unseparated, heterogeneous or empty arrays, and truncated input. Conversely every well-formed statement is accepted, up to fixed limits on nesting depth (1000) and on the number of operators (a million).",
 ["inputs"], "every text; in particular all single- and double-token edits (delete, duplicate, swap, replace, insert, truncate) of valid statements",
 "About 40 negative tests cover a few error kinds at one place each; mutations at other positions, and lexical errors at the end of the input, are not reached.",
 ["parser.go","composite.go","geometry.go","datetime.go","primitive.go","token.go","scanner/scanner.go"],
 [("token expectations","parser.go:except and its callers"),("array kind check","composite.go:parseArrayExpr"),("lexical error reporting","token.go:Err, scanner/scanner.go:error")],
 ["accept/reject verdict of Parse against a reference recogniser"])

prop("C10", "Formatting preserves meaning: Parse(Format(s)) is s",
 "For every statement Parse returned, Format succeeds and its output parses again to the same statement: same variables, condition tree, literal kinds, values, units and signs, device ids, properties, geometry and clauses (only source positions may differ).",
 ["inputs"], "every statement obtainable from Parse",
 "One format test formats one statement and only checks that the output parses; it fails on the base commit.",
 ["format.go","ast.go","units.go","keyword.go"],
 [("per-node formatters","format.go, ast.go:BooleanTyp.format"),("number and name printing","format.go:formatFloat, d2s, shortMonthNames"),("operator spelling","keyword.go:KeywordString")],
 ["structural comparison of the two statements"])

prop("C11", "Formatting is deterministic, idempotent and does not change the statement",
 "Formatting the same statement any number of times, or equal statements from different parses, yields identical text; formatting the re-parsed output reproduces it byte for byte; the statement is left unchanged; and the size of the text is bounded by the size and depth of the statement.",
 ["inputs","histories"], "every statement obtainable from Parse, repeated formatting, including selectors with many device ids and nested parentheses",
 "The only format test formats once and ignores the text; map iteration order and nesting depth are not exercised.",
 ["format.go","ast.go"],
 [("device-id map iteration","format.go:Selector.format, ast.go:needExpand"),("indentation of nested parentheses","format.go:ParenExpr.format")],
 ["bytes written by Format"])

prop("C12", "Format reports every write failure",
 "If any write to the destination fails, Format returns that very error instead of panicking or reporting success, and makes no further write after the failed one. If no write fails, it returns nil and the concatenated writes are the complete text.",
 ["fault_sequences","inputs"], "every statement and every write index at which the destination can fail, once or persistently",
 "No test uses a failing writer.",
 ["format.go","ast.go"],
 [("write-error propagation","format.go:checkError, formatTriggerStmt"),("boolean formatter","ast.go:BooleanTyp.format")],
 ["error returned by Format, sequence of writes seen by the destination"])

prop("C13", "White space and letter case do not change meaning",
 "Inserting, removing or replacing white space and comments between tokens that do not need them, shifting the whole text, and changing the letter case of keywords, operators, booleans, selectors and calendar names leave the parsed statement unchanged (apart from source positions). The case of string contents and variable names is preserved.",
 ["inputs"], "every accepted statement and every re-spacing and re-casing of it, including layouts that move tokens across the 1024-byte read buffer",
 "Tests use one fixed layout and case for each construct and never compare two layouts.",
 ["token.go","scanner/scanner.go","primitive.go","units.go"],
 [("white-space skipping and buffer refill","scanner/scanner.go:Scan, next"),("case folding","token.go:Scan"),("one-token push-back","token.go:Reset, next")],
 ["statements parsed from the variants"])

prop("C14", "The token stream does not depend on how the reader delivers its bytes",
 "A tokenizer yields the same tokens, texts, offsets and lexical error count however its reader splits the text (one byte at a time, at arbitrary points inside runes and tokens, with data and end-of-file together, with empty reads). A read error is reported by the tokenizer, and tokens wholly delivered before it are unaffected.",
 ["inputs","fault_sequences"], "every text, every chunking of it, and a read error after any byte",
 "Every test reads from an in-memory string shorter than the buffer.",
 ["scanner/scanner.go","token.go"],
 [("buffer refill with token text carried over","scanner/scanner.go:next, TokenText"),("error hook","token.go:NewTokenizer")],
 ["token stream of the tokenizer against the reference lexer"])

prop("C15", "Tokens are classified correctly",
 "For every text the tokenizer yields exactly the token sequence of the language: identifiers, case-insensitive keywords and two-word operators, maximal-munch comparison operators, integers, floats, strings and single characters, each with its (lower-cased) text and the offset where it starts. Anything else is one illegal token, the end of input yields EOF forever, and lexical errors are counted and reported.",
 ["inputs"], "every text",
 "The token test lists about 60 separate tokens in one spelling; adjacent operators, push-back, long tokens, Unicode and repeated EOF are not covered.",
 ["token.go","keyword.go","scanner/scanner.go"],
 [("classification","token.go:Scan"),("keyword tables","keyword.go"),("raw scanning","scanner/scanner.go:Scan, scanNumber, scanString")],
 ["tokens, texts and offsets returned by the tokenizer against a reference lexer"])

prop("C16", "The type checker accepts exactly the well-typed conditions",
 "CheckType succeeds if and only if, evaluated bottom-up, every operator of the condition is applied to operand kinds it supports: booleans for and/or; numbers for arithmetic and ordering (strings also for +); like kinds for equality (integers with floats; number arrays with each other and with geometries); an integer in an integer array, a float in a float array, a number in a numeric range or geometry, a string in a string array; geometries or numbers against geometries for intersects and nearby. Unit literals other than durations are floats, a selector has its declared kind (undeclared selectors have none), a variable has the kind of the literal assigned to it (undefined ones have none), every array element and both range ends count (literals, selectors, or variables holding a scalar), scalar and array selectors are interchangeable, and the result kind of each operator is used for the enclosing one.",
 ["inputs","configurations"], "every operator, every pair of operand forms (literal, selector, variable, nested expression), every dictionary",
 "Tests enumerate about 200 single-operator conditions with a fixed dictionary; nested expressions, most geometry kinds, integer-array selectors and later array elements are not covered.",
 ["typecheck.go"],
 [("operator table","typecheck.go:rules"),("kind predicates","typecheck.go:isInt, isFloat, isString, isBoolean, isArray, isRange, isGeometry"),("bottom-up evaluation","typecheck.go:walk, eval, toExpr")],
 ["verdict of CheckType against a reference type system"])

prop("C17", "Type checking is deterministic and has no side effects",
 "Checking the same statement with the same dictionary always gives the same verdict and the same message, in any process and after any other calls, and never panics on a statement Parse accepted. It changes neither the statement nor the dictionary.",
 ["inputs","histories"], "every accepted statement, every dictionary, any sequence of calls",
 "Each test case is checked once in one process; the rule lookup iterates over a map, so repeated runs may differ.",
 ["typecheck.go","format.go"],
 [("rule matching over a map","typecheck.go:eval"),("shared result operands","typecheck.go:opInt and the like"),("message rendering","typecheck.go:error")],
 ["verdict and message of CheckType, statement and dictionary before and after"])

prop("C18", "Walk and Visit reach every node exactly once, in source order",
 "Walking a statement visits the statement itself and every expression below it (variables, condition, selector properties, array, range and geometry members, radius and margin, clause values) exactly once, parents before children and children in source order. Each visit that does not prune is closed by exactly one nil visit after the node's children, pruning skips exactly that node's subtree, no other nil is passed, and the visitor returned for a node is the one used for its children and for that closing visit.",
 ["inputs"], "every statement, every sub-expression as root, every set of pruned nodes",
 "Tests use Visit to find selectors and references in simple statements; coverage of all node kinds, order, balance and pruning are not checked.",
 ["walk.go"],
 [("traversal","walk.go:Walk, Visit")],
 ["sequence of visitor calls against a traversal derived from the exported fields"])

prop("C19", "Syntax errors locate the failure inside the input",
 "Every rejection by Parse is an Error whose offset lies within the input and whose message text is exactly the input up to that offset. A token starts at that offset (or the input ends there) and the error's literal is that token's text. The offset never precedes the first token at which the input stops being the beginning of a well-formed statement, and when an illegal character stands where a well-formed statement could still continue, the offset is that character's.",
 ["inputs"], "every rejected text; every valid statement with its tail cut, replaced or preceded by an illegal character at any token",
 "Tests only check that some error is returned.",
 ["parser.go","token.go","scanner/scanner.go"],
 [("error construction","parser.go:error, Error"),("scanner offset","scanner/scanner.go:Scan")],
 ["fields of the error returned by Parse"])

prop("C20", "Every node reports the source span it was parsed from",
 "For a parsed statement and every expression in it, the start position is the byte offset of its first character and the end position the offset of its last character, independent of the white space around it; operator and assignment positions are the offsets of those tokens. Consequently spans lie within the input, and a child's span lies within its parent's.",
 ["inputs"], "every accepted text, every node kind and layout",
 "Tests assert spans for one layout of about 40 literals, all followed directly by a semicolon; operators, references, booleans, ranges and parenthesised expressions are not covered.",
 ["ast.go","token.go","parser.go","primitive.go","composite.go","geometry.go","datetime.go"],
 [("position bookkeeping","token.go:Offset and the parse functions"),("span accessors","ast.go: Pos, End")],
 ["Pos and End of every node against spans computed by a reference parser"])

prop("C21", "Concurrent use is safe and gives the sequential results",
 "Any number of goroutines may parse, tokenize, format, walk and type-check at the same time, on their own and on shared statements and dictionaries, without data races. Every call returns exactly what it returns when run alone.",
 ["schedules","inputs"], "every interleaving of Parse, Format, Walk, CheckType, KeywordString and tokenizer calls over shared read-only statements and dictionaries",
 "No test starts a goroutine and the suite is not run under the race detector.",
 ["parser.go","token.go","keyword.go","format.go","typecheck.go","walk.go","units.go"],
 [("package-level tables that must stay read-only","keyword.go, units.go, typecheck.go, format.go"),("per-call parser and tokenizer state","parser.go:newParser, token.go:NewTokenizer")],
 ["race detector reports","results of concurrent calls against sequential ones"])

prop("C22", "Parsing is a pure function with independent results",
 "Parsing the same text always gives an equal statement or the same error, whatever was parsed, formatted or checked before. Statements from different calls share no mutable state, and neither do different nodes of one statement, so changing one leaves every other, and all later results, unaffected.",
 ["inputs","histories"], "every text and every sequence of API calls, with callers modifying earlier results",
 "Every test parses a text once and never modifies a result.",
 ["parser.go","ast.go","token.go","typecheck.go"],
 [("fresh state for each call","parser.go:Parse, newParser"),("fresh nodes, slices and maps","primitive.go, composite.go, geometry.go, datetime.go")],
 ["addresses reachable from results, results before and after modification of others"])

prop("C23", "The scanner partitions its input and positions are exact",
 "The scanner's tokens, each equal to the source text at its offset, together with the white space and skipped comments between them make up the whole input in order with nothing lost or repeated; line, column and offset are those of the token's first character, and Peek, Next and Pos agree with them. In every mode combination it yields the same identifiers, strings, characters, raw strings, comments, single characters and errors at the same places as Go's text/scanner, of which it is a copy, and passes on what its reader reports; numbers are decimal digits and underscores with an optional fraction.",
 ["inputs","configurations"], "every text, scanning mode, white-space set and reader chunking",
 "The scanner package has no tests of its own.",
 ["scanner/scanner.go"],
 [("raw scanner","scanner/scanner.go:Scan, next, TokenText, Pos, Next, Peek")],
 ["tokens, texts, positions and errors against Go's text/scanner and a conservation check"])

prop("C24", "Statements edited or assembled by the caller are treated like parsed ones",
 "A statement means what its exported fields say. After a caller changes values or units, replaces, adds, removes, reorders or shares parts taken from parsed statements (keeping to what the language can express), at any time and also between calls, Format writes exactly that statement (its text parses to equal fields and equals the text of an equal parsed statement), CheckType gives the verdict and message of an equal parsed statement, and Walk visits exactly the parts now there. SetVar appends the variable, or returns an error and changes nothing when that exact name is already defined; HasHoles tells whether a polygon has more than one ring.",
 ["inputs","histories"], "every statement, every sequence of edits the language can express, calls in between",
 "Unit tests format and check freshly parsed statements only.",
 ["ast.go", "format.go", "typecheck.go", "walk.go"],
 [("Trigger.SetVar, exported fields","ast.go:Trigger, SetVar, isAssigned, HasHoles"),("formatter","format.go"),("type checker","typecheck.go"),("traversal","walk.go")],
 ["text, verdict and visits after edits against those of the parsed equal statement and the reference models"])

prop("C25", "Exported names and precedences agree with the language that is read",
 "KeywordString of any token value is empty or a spelling, in any letter case and spacing, that the tokenizer reads as exactly that one token; the literal Scan returns for a token that has a name is that name (or mod, the other spelling of rem), however it was written. Token.Precedence is positive exactly for the tokens Parse reads as binary operators, and for any two of them tells how Parse groups them. Unit.String gives, for every unit of the enumeration, a spelling that is read as that unit, and ? for other values; Sign.String gives the sign that is read as that sign, and nothing for other values. The answers are the same at any time, before and after any other calls, and in every process.",
 ["inputs","histories"], "every token, unit and sign value, every pair of operators, every text, any calls in between",
 "Tests use KeywordString only to label failures; no test uses Precedence, Unit.String or Sign.String.",
 ["keyword.go", "token.go", "units.go"],
 [("name table and its inverse","keyword.go:keywords, KeywordString"),("precedence table","token.go:Precedence"),("unit and sign names","units.go:Unit.String, Sign.String")],
 ["returned names and precedences against tokens and trees read from texts made of them"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
