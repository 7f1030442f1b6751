TECH = "symbolic execution of the Go SSA of the real code; z3 decides every branch and assertion over all values within the bounds"
TRUST = "Trusted: the engine's SSA semantics (cross-checked by replaying sampled paths natively), z3, the harness oracles; nothing is claimed outside the stated bounds."
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


P("C01", "JSON text is split into exactly the tokens of the JSON grammar",
  "For every byte text, the tokenizer yields the kind, the exact text and the end position of each token that the JSON grammar (RFC 8259) defines, skipping whitespace between tokens; it reports an error for anything that is not a token and the end exactly at the end of the text. A string is reported as escaped exactly when it contains a backslash, a number as an integer exactly when it has neither fraction nor exponent.",
  ["inputs"], "every byte sequence up to the bound, from every position",
  "Tests tokenize about twenty fixed texts; whether each byte after each prefix is accepted, rejected or ends the token is a question over all byte strings.",
  ["jsontokenizer.go"], [("tokenizer state machine", "jsontokenizer.go: Step")],
  "All byte strings within the bound are decided against an independently written lexer.")

P("C02", "Matching arbitrary bytes never panics, hangs or alters the document",
  "Matching any byte sequence against any supported expression returns either a verdict or an error: it never panics, never loops forever, never reports a match together with an error, and leaves the bytes of the document as they were.",
  ["inputs"], "every continuation, by arbitrary bytes, of representative document beginnings, for expressions of every kind",
  "Tests match well-formed documents only; malformed or cut-off text at every point of every nesting state is never tried.",
  ["fastMatcher.go", "jsontokenizer.go", "fastlitparse.go"], [("document walk", "fastMatcher.go: matchExec, matchObjectOrArray, matchLoop, leaveValue"), ("literal decoding", "fastlitparse.go")],
  "Every byte string of the bounded length in every listed context is covered symbolically.")

P("C03", "AND, OR, NOT and comparisons compose as boolean logic",
  "The verdict of an expression built from comparisons, existence tests, TRUE, FALSE, AND, OR and NOT over the members of a document is the value boolean logic gives it, where a comparison with a missing member is false and an inequality is the negation of the equality. The order of members in the document, early exits and the nesting of the operators never change it.",
  ["inputs", "programs"], "every expression shape up to the operator bound and every document (members present or absent, in any order, any value) up to the size bound",
  "Tests use a dozen fixed expressions on ten fixed documents; the interplay of evaluation order, early resolution and missing members is not sampled.",
  ["bintree.go", "transform.go", "fastMatcher.go"], [("compilation to buckets", "transform.go: transformOne"), ("incremental resolution", "bintree.go: MarkNode, checkNode, Resolve"), ("operation execution", "fastMatcher.go: matchOp")],
  "Expression shapes and document shapes are enumerated by the engine's choices, all leaf values stay symbolic.")

P("C04", "A field path selects exactly the value at that path",
  "A field path of member names and array indices selects the value stored there, or nothing when a step has no such member, no such element or is not a container; EXISTS and MISSING tell these apart, and a comparison of a missing value is false. Member names are compared by their decoded characters, however the document spells them.",
  ["inputs", "programs"], "every document up to the bound for paths of up to three steps in one or two operands, and every spelling of short member names",
  "Tests look up a few members of one fixed data set, with no indices beyond simple ones, no absent steps, no escaped names.",
  ["fastMatcher.go", "transform.go", "expression_utils.go", "fastlitparse.go"], [("path trie", "transform.go: getExecNode, findFieldRefsBestRoot"), ("descent", "fastMatcher.go: matchObjectOrArray"), ("stored operands", "fastMatcher.go: literalFromSlot, matchAfter")],
  "Documents of all shapes up to the bound with symbolic leaves are compared with a tree-walking evaluator.")

P("C05", "ANY, EVERY and ANY AND EVERY loops mean what they say",
  "An ANY loop holds exactly when some element of the array satisfies the body, EVERY exactly when the operand is an array all of whose elements do (so for an empty one), ANY AND EVERY exactly when the array is not empty and all do; over anything that is not an array each is false. The body is evaluated for each element on its own, with the same meaning as outside a loop, also in nested loops that use outer variables, in repeated loops over one array and next to other uses of that array.",
  ["inputs", "programs"], "every document up to the bound for bodies of every kind, plain, negated, nested and repeated",
  "Tests run a handful of loops over one data set; empty arrays, missing members in some elements, state left from earlier elements and variables of outer loops are not reached.",
  ["fastMatcher.go", "transform.go", "bintree.go"], [("iteration", "fastMatcher.go: matchLoop, matchAfter"), ("per-iteration state", "bintree.go: ResetNode, SetStallIndex"), ("scopes", "transform.go: transformLoop, getContext")],
  "Documents of all shapes up to the bound with symbolic leaves are compared with a direct evaluator.")

P("C06", "Several expressions matched together each keep their own verdict",
  "When several expressions are compiled into one matcher, each one's own verdict after matching a document is the verdict it has alone, and the overall verdict is that at least one of them holds; this includes constant TRUE and FALSE expressions and duplicates.",
  ["inputs", "programs"], "lists of two to four expressions of every kind and every document up to the bound",
  "Tests combine two fixed expressions once; interference through early exit, shared values and the common result tree needs particular documents.",
  ["transform.go", "fastMatcher.go", "bintree.go"], [("merging", "transform.go: transformMergePiece"), ("no early exit before all are known", "bintree.go: checkNode"), ("per-expression verdict", "fastMatcher.go: ExpressionMatched")],
  "Every listed combination is decided for all documents within the bound.")

P("C07", "A matcher that was reset behaves like a new one",
  "After a matcher has processed any document - complete, malformed or cut off - resetting it makes it give, for any further document, the verdict, the per-expression verdicts, the error outcome and the status flags that a newly made matcher gives.",
  ["histories", "inputs"], "every first document (including arbitrary trailing bytes) followed by every second document up to the bound",
  "Tests use each matcher for one document.",
  ["fastMatcher.go", "bintree.go"], [("reset", "fastMatcher.go: Reset"), ("tree state", "bintree.go: Reset")],
  "All two-document histories within the bound are decided.")

P("C08", "Independent matchers and values share no mutable state",
  "Creating and using matchers, reading expressions from texts, compiling, compacting and counting them, comparing values and removing members writes to nothing that another matcher, another compiled definition or another value can reach, so that separate matchers may be used concurrently and give the results they give alone, even when they were made from the same compiled definition.",
  ["schedules", "histories", "inputs"], "every store executed while reading, compiling, matching, resetting and comparing within the bounds; every pair of documents for two matchers of one definition",
  "No test uses two matchers at once; a write to shared memory shows only under particular interleavings.",
  ["fastMatcher.go", "fastval.go", "transform.go"], [("matcher state", "fastMatcher.go: NewFastMatcher"), ("conversions", "fastval.go: ToJsonString, toJsonStringInternal")],
  "A footprint argument: no store to memory reachable from the shared roots on any path implies independence under every schedule. Findings are replayed under the race detector.")

P("C09", "Comparing two values is consistent in both directions",
  "For any two values of any kinds, comparing b with a gives the reverse of comparing a with b and is valid exactly when that is; two values are equal exactly when their comparison is valid and says so; the result is one of -1, 0 and 1, and no combination of kinds panics. It does not matter whether one of them is a constant of the expression, and the six operators of a matcher agree with each other: a <= b is b >= a, and with a valid comparison it is (a < b or a = b).",
  ["inputs"], "every pair of kinds with arbitrary contents",
  "Tests compare a few dozen fixed pairs; most pairs of kinds and all boundary values are not sampled.",
  ["fastval.go"], [("comparison by kind", "fastval.go: Compare, compareInt, compareUint, compareFloat, compareStrings"), ("equality", "fastval.go: Equals")],
  "All pairs of kinds with symbolic 64-bit or textual contents.")

P("C10", "Numbers compare by their mathematical value",
  "Comparing two integers, signed or unsigned, orders them exactly by value over the whole 64-bit range; comparing a float with another number orders them by value, values closer than 1e-7 counting as equal; NaN is not comparable.",
  ["inputs"], "all pairs of 64-bit signed, unsigned and floating point numbers",
  "Mixed signs at the ends of the ranges, and mixed representations, need particular pairs out of 2^128.",
  ["fastval.go"], [("numeric comparison", "fastval.go: compareInt, compareUint, compareFloat")],
  "Decided for all bit patterns.")

P("C11", "Strings compare by their characters, however they are spelled",
  "Comparing two strings - members of the document or constants of the expression - is always valid and orders them by their decoded characters (byte order of the UTF-8 text, a proper prefix first); how the document spells a character (as itself, as a two-character escape or as a \\u escape) never changes the verdict of any of the six comparison operators.",
  ["inputs"], "every pair of short texts in every representation, and every spelling of every character in documents",
  "Tests compare a few plain ASCII words; escapes, control characters, quotes, non-ASCII characters and mixed spellings on the two sides are not tried.",
  ["fastval.go", "fastlitparse.go"], [("string comparison", "fastval.go: compareStrings, Compare, Equals"), ("representations", "fastval.go: ToJsonString, AsString"), ("unescaping", "fastlitparse.go")],
  "All texts of the bounded number of characters with arbitrary contents, in every combination of representations.")

P("C12", "Escaped strings decode to the characters they spell",
  "A string literal of the document decodes to exactly the characters it spells: unescaped bytes stay, two-character escapes and \\u escapes give their character, surrogate pairs combine to one character and an unpaired surrogate becomes U+FFFD; the length and the buffers used do not matter.",
  ["inputs"], "every sequence of pieces (bytes, escapes, \\u escapes with any digits) up to the bound, and long strings around the buffer size",
  "Tests decode about ten fixed escapes; unpaired or reversed surrogates and escapes at buffer boundaries need particular texts.",
  ["fastlitparse.go"], [("escape decoding", "fastlitparse.go: ParseEscString, ParseString")],
  "All hexadecimal digits and bytes are symbolic; the oracle decodes by RFC 8259.")

P("C13", "Arithmetic and mathematical functions compute the mathematical result",
  "Arithmetic on integers gives the exact integer result when it fits 64 bits and otherwise the nearest float, never a wrapped number; division is by value, and division by zero has no valid result instead of panicking. Arithmetic with a float follows IEEE 754. Negation, absolute value, rounding, ceiling, floor and square root give the value they name for every number. Functions of something that is no number have no valid result, and no combination of operands panics.",
  ["inputs"], "all pairs of 64-bit signed, unsigned and floating point numbers, and every combination of kinds",
  "Tests evaluate each function on one or two small numbers; overflow, mixed signedness, zero divisors and non-numbers are not sampled.",
  ["fastval_math.go", "fastMatcher.go"], [("arithmetic", "fastval_math.go: FastValMathAdd, FastValMathSub, FastValMathMul, FastValMathDiv, FastValMathMod"), ("functions", "fastval_math.go"), ("resolution of function operands", "fastMatcher.go: resolveParam, matchOp")],
  "Full 64-bit operands for sums, differences and one-operand functions; products and quotients within stated widths and against boundary constants.")

P("C14", "A numeric literal decodes to the number it denotes",
  "An integer literal decodes exactly when it fits 64 bits (as a signed number when it fits that, otherwise as an unsigned one), and to the nearest float when it does not - never to a number wrapped around; a literal with a fraction or an exponent decodes to the float nearest to it.",
  ["inputs"], "every integer literal of up to 18 digits, literals around the 64-bit limits, and fractions and exponents up to the bound",
  "Tests decode a handful of small numbers.",
  ["fastlitparse.go", "fastval.go"], [("integers", "fastlitparse.go: ParseInt"), ("floats", "fastlitparse.go: Parse"), ("kinds", "fastval.go: AsInt, AsUint, AsFloat")],
  "All digit strings within the bound are symbolic.")

P("C15", "Removing members leaves exactly the rest of the object",
  "Removing a list of member names from a JSON object removes the members of these names at every depth, wherever they stand, and leaves in the destination the text of exactly the remaining object without whitespace between tokens; each removed value is reported under its name with its own text, the count is the number of members removed and the flag says whether anything is left. Names given twice or absent from the object change nothing.",
  ["inputs"], "every object up to the bound with every listed set of names",
  "Tests remove one or two members from a dozen fixed objects; strings at the end of arrays, repeated names, nesting and whitespace are hardly combined.",
  ["jsonComposer.go", "jsontokenizer.go"], [("removal", "jsonComposer.go: MatchAndRemoveItemsFromJsonObject"), ("separators", "jsonComposer.go: jsonObjComposer.Write")],
  "Object shapes are enumerated by the engine's choices with symbolic leaves and names; the oracle works on the tree.")

P("C16", "Removing members from arbitrary bytes stays within its buffers",
  "Removing members from any byte sequence, well-formed or not, into a destination of any size never panics, never alters the source, never writes beyond the length of the destination and ends with either an error without a result or a text within the destination that starts and ends with braces and is no longer than the source. A destination that is too short is reported as exactly that.",
  ["inputs"], "every byte sequence up to the bound, alone and after representative beginnings; every destination size for every object up to the bound",
  "Tests pass well-formed objects and destinations that are large enough.",
  ["jsonComposer.go"], [("writing", "jsonComposer.go: jsonObjComposer.Write"), ("malformed input", "jsonComposer.go: MatchAndRemoveItemsFromJsonObject")],
  "All byte strings within the bound and all destination sizes are decided; bytes behind the destination are guarded.")

P("C18", "Filter texts combine conditions with NOT before AND before OR",
  "A filter text holds for a document exactly when its conditions, each taken by itself, combine to true with NOT binding tighter than AND and AND tighter than OR, unless parentheses say otherwise; TRUE, FALSE, EXISTS, IS [NOT] NULL and IS [NOT] MISSING mean what they say, and a missing member satisfies no comparison.",
  ["inputs", "programs"], "every arrangement of up to three or four conditions, connectives, parentheses and NOTs; every kind of condition on every kind of member",
  "Tests parse about seventy fixed filters and match them with a handful of documents.",
  ["filterExprParser.go"], [("grammar", "filterExprParser.go: FEInnerExpression, FEInnerAndExpression, FESubExprOrTerm, FECondition"), ("translation", "filterExprParser.go: OutputExpression"), ("compilation", "filterExprParser.go: GetFilterExpressionMatcher")],
  "The grammar library runs natively on each text (it works by reflection); the translation, compilation and matching of its result are executed symbolically, with symbolic literals and documents.")

P("C19", "Filter texts denote the operands and comparisons they spell",
  "A comparison in a filter text is the one its spelling says: the operator (in each of its spellings), the field path (names quoted or not, array indices, META()), the number with its sign, the text with its escapes, the function, and arithmetic with * / % before + -, from left to right; on either side of the operator and as an argument. Any other text is rejected with an error: a text never makes the parser, the compilation or the matching panic.",
  ["inputs", "programs"], "all operator spellings with all kinds of operands and spacings, arithmetic of up to three operators, all functions; texts with one token changed",
  "Tests parse fixed texts; signs, chains of operators and operands in unusual places are not sampled.",
  ["filterExprParser.go"], [("operands", "filterExprParser.go: FEFieldWithMathType1, FEField, FEMathValue, FEValue"), ("operators", "filterExprParser.go: FECompareOp"), ("functions", "filterExprParser.go: FEConstFuncExpression")],
  "The grammar library runs natively on each text (it works by reflection); literals stand for symbolic values; the verdict is compared with that of the expression the text was generated from.")

P("C20", "Simple texts combine conditions from left to right",
  "A text of the simple expression language holds for a document exactly when its conditions, each taken by itself, combine to true from left to right, && and AND being the same as well as || and OR, unless parentheses (with white space around them) say otherwise; true, false, EXISTS, IS MISSING, IS NULL and IS NOT NULL are conditions like any other, wherever they stand.",
  ["inputs", "programs"], "every arrangement of up to three or four conditions, connectives in both spellings and up to two pairs of parentheses",
  "Tests parse some forty fixed expressions; spellings are not mixed and few have anything after a closing parenthesis.",
  ["simpleParser.go"], [("grouping", "simpleParser.go: parse, mergeAndRestoreSubContexts, enableShortCircuitEvalIfPossible"), ("modes", "simpleParser.go: checkTokenTypeWithinContext, advanceToken"), ("output", "simpleParser.go: outputAnd, outputOr")],
  "The parser itself is executed symbolically; a chain of one connective may be grouped either way.")

P("C23", "Simple texts denote the operands they spell",
  "A condition in a text of the simple expression language is the one its spelling says: the operator in each spelling and with or without white space around it, the member (plain or escaped names, whatever letters or characters they consist of, nested, or an element), the number, the quoted string with exactly its characters, the pattern, the function with its arguments, nested ones included. Any other text is either rejected with an error or can be matched: a text never makes the parser or the matching panic or run forever.",
  ["inputs", "programs"], "all operators with all kinds of operands and spacings, all functions, strings and names of any characters up to the bound; texts with one token changed and all short texts",
  "Tests parse fixed expressions; names and strings that contain operators, parentheses or white space, and functions within functions are not sampled.",
  ["simpleParser.go", "constants.go"], [("tokens", "simpleParser.go: splitTokens, getCurrentToken, opSeeker"), ("fields", "simpleParser.go: checkAndParseField"), ("values", "simpleParser.go: getValueTokenHelper, outputValueInternal"), ("functions", "simpleParser.go: resolveRecursiveFuncs, outputFunc")],
  "The parser itself is executed symbolically on texts with symbolic characters.")

P("C25", "Dates compare by the instants they denote",
  "A year, year and month, date (with dashes, slashes, dots or blanks), date and time, or RFC 3339 time with fraction and offset is a date exactly when such a day and time exist in the calendar, missing parts being their beginning and times without an offset in UTC. Every comparison of two dates, through DATE or with a time constant on either side, is that of the instants. A text that is no date equals none and is below all; as a constant it is rejected when the expression is read.",
  ["inputs"], "all digits of a part (thorough: of two) of a text in each form, months and years chosen, leap years and impossible days included",
  "Tests compare a handful of dates in two forms; leap days, impossible days, offsets, fractions and other separators are not sampled.",
  ["fastval_date.go", "fastval.go", "expression_json.go"], [("reading", "fastval_date.go: FastValDateFunc, isoToRfc, GetNewTimeFastVal"), ("constants", "fastval_date.go: validTimeChecker; expression_json.go: parseJsonTime"), ("order", "fastval.go: compareTime, AsTime, Collate")],
  "time.Parse and time's calendar arithmetic are executed symbolically from the library's source.")

P("C21", "Partial outcomes settle the result tree by three-valued logic, in any order",
  "Whatever the order in which the outcomes of the individual conditions become known, the result of the whole expression is known exactly as soon as three-valued logic determines it, has that value, and conditions that can no longer matter count as settled. Forcing a decision treats every condition still open as false, and a loop that never ran as false.",
  ["schedules", "histories"], "every tree up to the bound, every order of outcomes, every outcome, a forced decision at any point",
  "Tests replay three or four orders on fixed trees.",
  ["bintree.go"], [("propagation", "bintree.go: MarkNode, checkNode, resolveRecursive"), ("forced decision", "bintree.go: Resolve")],
  "All trees, orders and outcomes within the bound.")

P("C17", "JSON expressions are read as written or rejected",
  "Reading an expression in its JSON form yields exactly the expression that is described - its type, operands, names, values and nesting - or an error: text that is malformed, cut off, of an unknown type or lacking operands is rejected and never panics, and every function expression that is accepted can be matched.",
  ["inputs", "programs"], "every expression type (also as symbolic text) with any right or wrong operands, every nesting up to the bound, texts cut off anywhere and continued by arbitrary bytes",
  "Tests read a dozen well-formed expressions; no malformed one is tried.",
  ["expression_json.go", "expression.go"], [("type dispatch and operand counts", "expression_json.go: parseJsonSubexpr"), ("operands", "expression_json.go: parseJsonComparison, parseJsonLoop, parseJsonFunc, parseJsonField")],
  "JSON texts are generated together with the expression they mean; operand combinations are enumerated by choices, names and values stay symbolic.")

P("C22", "Compacting an expression keeps its meaning",
  "The expression that CompactExpression returns has the verdict of the original one for every document, and the original is left unaltered.",
  ["inputs", "programs"], "every expression of nested operators and loops up to the bound over constants and comparisons, and every document up to the bound",
  "The function has no test.",
  ["expression_compact.go"], [("simplification", "expression_compact.go: CompactExpression")],
  "Both expressions are evaluated directly and by a matcher on all documents within the bound.")

P("C24", "Regular expressions see the characters of a string",
  "A regular expression condition holds exactly when the pattern matches the decoded characters of a string member, however the document spells them; for a missing member and for anything that is no string it is false, and its negation true.",
  ["inputs"], "every text of up to two pieces (bytes, escapes, \\u escapes with any digits) for fifteen patterns, plain and negated",
  "Tests match three patterns against plain names; escapes, anchors at quotes, control characters and other kinds of values are not tried.",
  ["fastval.go", "fastMatcher.go"], [("matching", "fastval.go: matchStrings, Matches"), ("operands", "fastMatcher.go: matchOp")],
  "All texts within the bound against the standard library's matcher on the decoded characters.")

P("C26", "Expression statistics count the constructs of the expression",
  "Scanning an expression adds exactly its numbers of loops, loops inside of loops, ANDs, ORs, field references and constants to the counts, sets the loop depth to the larger of the previous one and its own, and neither fails nor panics for any expression a matcher supports.",
  ["inputs", "programs"], "every expression up to the operator bound over every kind of condition and operand, starting from arbitrary counts",
  "The scan has no test.",
  ["expressionstats.go"], [("counting", "expressionstats.go: Scan, scanOne")],
  "Expressions are built by the engine's choices together with their counts; previous counts are symbolic.")

P("C27", "Document layout does not influence the verdict",
  "Whitespace between tokens and the order of the members of an object never change a verdict, a per-expression verdict or whether matching fails, as long as no object or array is compared as a whole.",
  ["inputs"], "every document up to the bound, every whitespace run, every pair of mirrored member orders",
  "Tests use compact documents in one member order.",
  ["fastMatcher.go", "jsontokenizer.go"], [("positions of stored operands", "fastMatcher.go: matchExec"), ("whitespace", "jsontokenizer.go: Step")],
  "Relational check of two runs on two spellings of one document.")

P("C28", "A verdict given early is the verdict of the whole document",
  "When matching a document that is cut off or stops being JSON gives a verdict instead of an error, then the part that was read determines it: every complete document that continues this part gets the same verdict. In particular a cut-off document whose verdict still depends on the missing part is an error.",
  ["inputs", "fault_sequences"], "every document up to the bound, cut between any two tokens, with and without a following illegal byte",
  "Tests never match incomplete documents.",
  ["fastMatcher.go", "bintree.go"], [("early exit", "fastMatcher.go: matchExec, matchObjectOrArray"), ("skipping", "fastMatcher.go: leaveValue, skipValue")],
  "Relational check of the cut-off document against its completion.")

P("C29", "Both matchers give the same verdict",
  "For expressions and documents both support, the matcher compiled from an expression and the one that decodes the whole document give the same verdict: comparisons of numbers, texts and constants of equal kind, AND, OR and ANY over members that are present; also for each of several expressions compiled together, and when the matchers are reset and used again, even after a document that was cut off or broken.",
  ["inputs", "programs"], "pairs of values of all kinds for the six operators; twelve nested expressions on every document up to the bound; lists of three expressions before and after a reset",
  "Tests run both matchers on one data set only.",
  ["slowmatcher.go", "fastMatcher.go"], [("direct evaluation", "slowmatcher.go: Match, matchOne"), ("compiled evaluation", "fastMatcher.go: matchExec, matchOp")],
  "Relational check of two implementations; what the direct one does not support (constants decoded as integers, missing members) is outside, and so is its overall verdict over several expressions, which is that all of them hold and not, as for the other, that one does: nothing says which is meant.")

P("C30", "Members convert to a constant's kind or are ordered by kind, as the status tells",
  "Comparing a member with a constant converts the member to the constant's kind where it can be - a truth value or the text of a number against a number, a whole number by its digits against a text, a number or the text of a truth value against a truth value. Where it cannot, the two are different and ordered by kind: null, truth values, numbers, texts, arrays, objects. MatchWithStatus gives Match's verdict and reports MatcherCollateUsed exactly when a comparison made for it fell back in this way.",
  ["inputs", "programs"], "a member of 15 kinds with symbolic digits and letters against 16 constants, all operators, both sides; AND, OR, NOT and loops of such comparisons; members of different kinds against each other",
  "Tests look at the status of two filters on two documents; the conversions and the fallback depend on every combination of kinds and contents.",
  ["fastval.go", "fastMatcher.go"], [("conversion", "fastval.go: Compare, compareUserDefined, checkCompatibility, ImplicitConvTable, AsInt, AsFloat, AsBoolean"), ("fallback", "fastval.go: Collate; fastMatcher.go: matchOp, MatchWithStatus")],
  "Excluded: text constants against truth values (neither equal nor ordered) and against fractions (the exponent form is compared). The text of a fraction does not convert to a whole number; inf and nan are texts of floats.")

P("C31", "A document that is not JSON is reported, one that is never",
  "Matching a JSON document never gives an error. When a document has to be read to its end, Match and MatchWithStatus give an error and no verdict whenever what they read on the way to the members the expression looks at - names, colons, commas, values and ends of those objects and arrays, brackets and tokens of everything else - is not JSON; the matcher, once reset, then judges the next document as if nothing had happened.",
  ["inputs"], "every text over the structural characters up to the bound, in every place of a document, for expressions that no part of it settles",
  "Tests match well-formed documents; which of the texts that are almost JSON slip through as documents without the members is a question over all of them.",
  ["fastMatcher.go", "jsontokenizer.go"], [("document walk", "fastMatcher.go: Match, MatchWithStatus, matchExec, matchObjectOrArray, matchLoop, leaveValue, skipValue")],
  "What the matcher skips is only held to tokens and the number of brackets; a comma before an end passes; text after the document's value is not read.")

P("C32", "A transformer can be used again",
  "What a transformer compiles means the same whatever it compiled before, even when compiling that failed, and definitions it made earlier go on giving the verdicts of their own expressions.",
  ["histories", "inputs"], "every pair of expression lists out of 17 compiled one after the other, on every document up to the bound",
  "Tests make a new transformer for every expression.",
  ["transform.go", "fastMatcher.go"], [("compilation", "transform.go: Transform, transformOne, transformMergePiece, getExecNode")],
  "Definitions are compared with an independent evaluator on documents with symbolic leaves.")

P("C33", "Constants given as Go values mean the value, whatever their type",
  "A constant of an expression may be given as any Go integer, float32, float64, bool, string, *time.Time or nil; a comparison of a member with it gives what the comparison with that value gives, for every value of the type, on either side of every operator.",
  ["inputs", "programs"], "all values of the ten integer types, symbolic floats, truth values, texts, times and nil, the six operators, constant on either side",
  "Tests use int and string constants.",
  ["fastval.go", "transform.go"], [("constants", "fastval.go: NewFastVal; transform.go: makeDataRefRecurse"), ("comparison", "fastval.go: Compare, compareUserDefined")],
  "The document's member is built next to, on and around the constant.")

P("C34", "A simple text means the same in whatever order Go iterates its maps",
  "Reading the same simple text always gives the same expression: the verdict does not depend on the order in which the tables of operators of several words and of functions are gone through, which Go picks anew for every loop.",
  ["schedules", "inputs"], "every operator of several words and every function, also one within another, for every starting place of the loops over the tables",
  "A test samples a few orders; a table whose entries overlap is read wrongly in some orders only.",
  ["simpleParser.go"], [("operators of several words", "simpleParser.go: handleMultiTokens, checkIfTokenIsPotentiallyOpType"), ("functions", "simpleParser.go: tokenIsBuiltInFuncType, NewExpressionParserCtx, getCheckFuncPattern")],
  "The order of iteration is chosen by the engine: the loops start at any entry and go round; a counterexample is replayed by reading the text natively many times.")

P("C35", "A pattern is accepted exactly when it is a regular expression",
  "Wherever a pattern is given - in an expression, as JSON, in a filter text or in a simple text - it is accepted exactly when it is a regular expression (of Go's syntax, this build having no PCRE), reported otherwise without a panic of the parser, and matches what that regular expression matches.",
  ["inputs", "programs"], "every pattern of up to three pieces, among them all that look like PCRE, given in each of the four ways",
  "Tests use a dozen patterns.",
  ["simpleParser.go", "filterExprParser.go", "transform.go", "constants.go"], [("simple texts", "simpleParser.go: getValueTokenHelper, outputRegex"), ("filters", "filterExprParser.go: OutputRegexExpression"), ("compilation", "transform.go: makeDataRefRecurse"), ("PCRE", "constants.go: tokenIsPcreValueType")],
  "Accepted or not is compared with regexp.Compile; a compilation of a bad pattern by Transform panics, by design.")
