#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": None}})

PARSE = ["paths/lex.go","paths/lexpath.go","paths/lexexpr.go","paths/parsepath.go","paths/parseexpr.go"]
RUN = ["mach/run.go","mach/json.go","mach/coder.go"]

prop("C01","Compile always terminates with exactly one of a usable path or an error",
 "For every input string, Compile returns, without panicking or hanging, either a non-nil compiled path and a nil error, or a nil path and a non-nil error. MustCompile panics exactly on the strings Compile rejects, and String on the compiled path gives back the source text unchanged.",
 ["inputs"],"every byte string, including truncated, non-ASCII and malformed ones",
 "The tests compile a few hundred fixed paths; a crash, hang or nil/nil result needs one particular malformed text that no sample contains.",
 ["jsonpath.go"]+PARSE+["mach/coder.go"],
 [("Compile, MustCompile, String","jsonpath.go"),("lexer and recursive-descent parsers","paths/"),("code generation","mach/coder.go Compile")],
 ["jsonpath.Compile","jsonpath.MustCompile","JSONPath.String"])

prop("C02","Compile accepts exactly the documented path language, with its meaning",
 "A string is accepted as a path exactly when it is derived from the documented path grammar ('$' followed by member, nested member, bracketed subscript, union, slice and filter steps, with white space allowed between tokens and a bare identifier allowed as a bracketed key). The parsed path then has exactly the steps the text spells, in order: kind of each step, its names, strings and integers, and each slice's start, end and stride, present or absent.",
 ["inputs"],"every string over all byte values, in every syntactic position of a path",
 "Path tests list about a hundred accepted texts with their programs; neither the rejected texts nor other spellings (white space, signs, empty slice parts, nested unions) are bounded by a list.",
 ["paths/parsepath.go","paths/lexpath.go","paths/lex.go","syntax/doc.go"],
 [("parsePath, parseSubscript, parseVal, parseSlice, parseMember","paths/parsepath.go"),("lexPath","paths/lexpath.go")],
 ["paths.ParsePath","jsonpath.Compile"])

prop("C03","Script expressions are accepted exactly when the documented grammar derives them",
 "The text inside '(...)' and '?(...)' is accepted exactly when it is derived from the documented script-expression grammar: literals, identifiers, '@', '$', array literals, parentheses, unary '-' and '!', the binary operators, and the postfix forms call (of an identifier only), index and '.' identifier. Anything else (missing operands or operators, unbalanced brackets, stray characters, unfinished literals, trailing text) is rejected with an error. Only an expression nested more than a hundred thousand levels deep may be rejected for its size.",
 ["inputs"],"every string over all byte values, as a complete script expression and inside a path",
 "Tests contain a few dozen expressions, almost all of them valid; a wrongly accepted or wrongly rejected text is in the infinite remainder.",
 ["paths/parseexpr.go","paths/lexexpr.go","paths/lex.go"],
 [("expr, primary, primary1, application","paths/parseexpr.go"),("lexExpr, lexRegexp","paths/lexexpr.go")],
 ["paths.ParseScriptExpression","paths.ParsePath"])

prop("C04","Expressions group by the documented precedence and left associativity",
 "Every accepted expression is parsed to the tree JavaScript's rules give it: postfix forms bind tightest, then unary '-' and '!', then '*' '/' '%', then '+' '-', then '<' '<=' '>' '>=' 'in' 'nin' '~' '=~', then '==' '!=', then '&&', then '||'. Binary operators of equal precedence associate to the left, parentheses override, and operands keep their textual order.",
 ["inputs","programs"],"every sequence of operators and operands, nested to any depth",
 "Fixed samples exercise a handful of operator pairs; grouping must be right for every pair and triple of operators, with prefix and postfix operators in between.",
 ["paths/parseexpr.go","paths/ops.go"],
 [("expr: precedence climbing","paths/parseexpr.go"),("Op.precedence, Op.associativity","paths/ops.go"),("tok2op","paths/parseexpr.go")],
 ["paths.ParseScriptExpression","JSONPath.Eval"])

prop("C05","Literals denote exactly the value they spell",
 "An integer literal denotes its exact decimal value if that fits the signed 64-bit range and is otherwise rejected (a negative path integer may go down to -(2^63-2)); a real literal denotes the nearest double and is rejected beyond the largest one. A quoted string denotes its characters after replacing escapes by JSON's rules (unpaired surrogates become U+FFFD, \\' only in single and \\\" only in double quotes), and raw control characters, unknown or short escapes and missing closing quotes are rejected; a /regexp/ literal keeps its text except that '\\/' stands for '/'.",
 ["inputs"],"every digit string, every escape sequence and every byte inside quotes",
 "The lexer test has about forty literals; overflow boundaries, surrogate pairing and each escape in each quote style are value ranges, not samples.",
 ["paths/lex.go","paths/lexexpr.go","paths/lexpath.go"],
 [("lexNumber","paths/lex.go"),("lexString, escaped","paths/lex.go"),("lexRegexp","paths/lexexpr.go")],
 ["paths.ParsePath","paths.ParseScriptExpression","JSONPath.Eval"])

prop("C06","A key or index step selects exactly the member or element it names",
 "Applied to an object, a name, quoted string or integer step (an integer as its decimal digits) selects the value of exactly that key, or nothing if it is absent; a null value that is present is selected. Applied to an array of length n, integer i selects element i when 0 <= i < n, [i] with -n <= i < 0 selects element n+i, '.i' never counts from the end, and any other integer or any non-integer key selects nothing; applied to a scalar every step selects nothing.",
 ["inputs"],"every 64-bit index, every array length, every key string and every kind of document value",
 "Tests use indices within a few units of small arrays; the boundary relation between index and length must hold for the whole integer range.",
 RUN,[("valsByKey, valByKey, mapKey","mach/run.go"),("small-integer orders","mach/program.go")],
 ["JSONPath.Eval"])

prop("C07","A slice step selects exactly the elements Python's slice rules give",
 "For an array of length n, [start:end:stride] with any 64-bit or absent parts yields the elements at start, start+stride, ... strictly before (for negative stride, strictly after) end, in that order, where negative bounds count from the end, out-of-range bounds are clamped, an absent stride is 1 and absent bounds mean the whole array in the stride's direction. A stride of 0 yields nothing, a slice of anything but an array yields nothing, and no slice ever panics or fails to terminate.",
 ["inputs"],"all 64-bit start, end and stride values (or absent) and all array lengths",
 "Three 64-bit numbers and a length interact through sign, clamping and overflow; tests have some forty combinations of small ones.",
 ["mach/run.go"],[("sliceEval","mach/run.go"),("valsByKey slice loops","mach/run.go")],
 ["JSONPath.Eval"])

prop("C08","A union yields each element's selection, in order, as a bag",
 "[e1,...,ek] applied to a value yields the results of [e1], then [e2], ..., [ek] concatenated, keeping duplicates, whatever mix of integers, strings, identifiers and slices the elements are. An element that selects nothing contributes nothing and does not disturb the others, and over several input values the results come input by input.",
 ["inputs","programs"],"every list of union elements and every array or object value",
 "Tests cover a few unions on friendly documents; interactions of a failing or wrongly-typed element with results already collected need particular combinations.",
 ["mach/run.go","mach/coder.go","paths/parsepath.go"],
 [("OpUnion, OpNestUnion","mach/run.go Run"),("popN","mach/run.go"),("valsByKey","mach/run.go")],
 ["JSONPath.Eval"])

prop("C09","Wildcard and '..' select every child and every descendant exactly once",
 "A wildcard yields every element of an array in order and every member value of an object exactly once, and nothing for scalars. '..' followed by a member, subscript, union or wildcard applies that selector exactly once to the value itself and to every array and object beneath it, visiting a container before its descendants and array elements in order, to any depth.",
 ["inputs"],"every document shape: nesting, empty containers, mixed arrays and objects, several input values",
 "Each test document is one shape; omissions and duplicates depend on the shape (empty, deep, mixed) and on how many values flow into the step.",
 ["mach/run.go"],[("walker, walkdown, stepping, looptop","mach/run.go"),("valsWild","mach/run.go")],
 ["JSONPath.Eval"])

prop("C10","A filter keeps exactly the candidates for which its expression is truthy",
 "[?(e)] evaluates e once with '@' bound to each element of an array (in order) or member value of an object, and selects exactly those for which e is truthy; ..[?(e)] does so with '@' bound to each array or object at or beneath each input value, a container before its descendants. A value with no candidates contributes nothing, inside e '$' is always the whole document, and an e without a usable result counts as false.",
 ["inputs","programs"],"every document, every candidate set (including none) and every filter expression of the stated shapes",
 "Selection must be exact for every combination of candidates; tests show some filters on documents that always have candidates.",
 ["mach/run.go","mach/coder.go"],[("OpFor/OpNest/OpRep loops","mach/run.go Run"),("codeLoop","mach/coder.go"),("OpFilter","mach/run.go")],
 ["JSONPath.Eval"])

prop("C11","Steps compose: each step applies to every result of the one before, in order",
 "The result of a path of k steps is the concatenation, in order, of the results of its last step applied to each result of the first k-1 steps, and the path '$' yields just the document. A computed subscript [(e)] or .(e) selects with the value of e: a string as a key, a number as an index (a fraction is truncated) or as an object key in decimal, and nothing when e has no usable result.",
 ["inputs","programs"],"every sequence of steps of every kind, every document, every computed key",
 "Tests run mostly one or two steps; order and loss of results across steps after empty or multiple intermediate results need particular sequences.",
 RUN,[("applySelection","mach/run.go"),("Run's output set","mach/run.go"),("Compile","mach/coder.go")],
 ["JSONPath.Eval"])

prop("C12","== and != follow JavaScript's abstract equality, comparing structures by value",
 "For scalars, a == b is what JavaScript's abstract equality gives (numbers by numeric value, null equal only to null and to a missing value, booleans converted to numbers, strings converted to numbers when met by a number or boolean), and a missing value equals only null or another missing value. Two arrays are equal exactly when they have the same length and equal elements in order, two objects exactly when they have the same keys with equal values; An array met by a string, number or boolean is an empty string if it has no element or only null, its one element if that is a string or number (a number met by a string is written as JavaScript writes it), and equal to neither string, number nor boolean if it has several elements; a list in a list counts as the inner one. An object equals no number or boolean. == is symmetric and != is always its negation.",
 ["inputs"],"every pair of values of every kind that a document or a literal can supply",
 "The table of type pairs times values is tested at a few dozen points; coercions go wrong at particular values (fractions, empty strings, missing keys).",
 ["mach/json.go","mach/run.go"],[("eqVal, eqNum, eqNumString, stringNum, eqArrayS, eqArrayN","mach/json.go"),("cvi, cvf, cvs","mach/json.go")],
 ["JSONPath.Eval"])

prop("C13","<, <=, >, >= compare numbers numerically and strings bytewise",
 "Between numbers and booleans (as 0 and 1) the relational operators give the exact numeric comparison, two integers being compared as 64-bit integers and any other mix as doubles; between two strings they give lexical byte order. Between a string and a non-string, or when either operand is null, an array or an object, the result is false, and when an operand has no usable result neither has the comparison.",
 ["inputs"],"every pair of values of every kind, all doubles, all 64-bit integer literals, all strings",
 "Tests compare a few small numbers; sign, boundary, mixed integer/double and mixed-type cases are value ranges.",
 ["mach/run.go","mach/json.go"],[("relation","mach/run.go"),("isSimple, cvi, cvf, cvs","mach/json.go")],
 ["JSONPath.Eval"])

prop("C14","Arithmetic is integer on integers, IEEE double otherwise, and never traps",
 "+, -, *, / and % on two integers (or booleans as 0 and 1) give the 64-bit two's-complement result, division truncating toward zero and % taking the dividend's sign; if either operand is a double both are converted and IEEE double arithmetic is used. Dividing by zero or using a null, string, array, object or missing operand yields no usable result rather than an error or a panic, and unary '-' negates numbers and booleans.",
 ["inputs"],"all 64-bit integers and all doubles, every kind of operand, nested expressions",
 "Arithmetic identities over 2^128 operand pairs; tests contain about ten sums.",
 ["mach/run.go","mach/json.go"],[("arith, divide","mach/run.go"),("OpNeg","mach/run.go Run"),("cvi, cvf","mach/json.go")],
 ["JSONPath.Eval"])

prop("C15","Truthiness, !, && and || behave as in JavaScript",
 "null, false, 0, -0, the empty string and a missing value are falsy and every other value, including every array and object, is truthy; !a is true exactly when a is falsy. a || b has the value of a when a is truthy and otherwise that of b, a && b has the value of a when a is falsy and otherwise that of b, so the operand itself is the result, not a boolean.",
 ["inputs"],"every value of every kind on either side, nested to any depth",
 "Operand-valued logic shows only when the result is used further, for particular combinations of kinds and values; tests use it as a yes/no answer.",
 ["mach/run.go","mach/json.go"],[("OpAnd, OpOr, OpNot","mach/run.go Run"),("cvb","mach/json.go")],
 ["JSONPath.Eval"])

prop("C16","in, nin and ~ decide membership and match, and fail only on bad operands",
 "'a in b' is true exactly when some element of the array b equals a by ==, 'nin' is its negation, and 's ~ re' (or =~) is true exactly when the regular expression, given as a literal or as a string, matches somewhere in string s. If an operand is missing the result is no usable value; otherwise a right operand of in/nin that is not an array, or a left operand of ~ that is not a string, or a right one that is neither a string nor a regular expression or is an invalid pattern, makes Eval return an error.",
 ["inputs"],"every pair of values of every kind; every subject string for each pattern",
 "Each outcome depends on the kinds and values of both operands; tests cover the successful ones.",
 ["mach/run.go","mach/json.go"],[("OpIn, OpNin, OpMatch","mach/run.go Run"),("searchJSON","mach/json.go")],
 ["JSONPath.Eval"])

prop("C17","Built-in functions compute what their specification says, for all arguments",
 "abs, avg, ceil, contains, ends_with, floor, keys, length, max, min, prod, starts_with, sum, to_number and tokenize return what the JsonCons.JsonPath specification defines for arguments of the right type, for every value; max and min also take several numbers or strings, and booleans in the array of sum, prod or avg count as 0 and 1. An argument of the wrong type, a string that is no number for to_number, or a missing value, never panics and yields no usable result (null for length; contains compares a missing second argument as null), and calling an unknown function or one with the wrong number of arguments makes Eval return an error.",
 ["inputs"],"every argument of every kind and value, arrays of every content, every argument count",
 "The function test has a few calls each, most with numbers; wrong results sit at particular kinds, orders, signs and lengths.",
 ["mach/fns.go","mach/run.go"],[("functions table","mach/fns.go"),("call","mach/run.go"),("minMaxArray, arithArrayOp, stringArrayOp","mach/fns.go")],
 ["JSONPath.Eval"])

prop("C18","Eval never panics and returns a list of document values or an error, never both",
 "For every compiled path and every JSON document Eval returns, without panicking, either a non-nil (possibly empty) list and a nil error, or a nil list and a non-nil error. Every value in the list is a value that occurs in the document at some location.",
 ["inputs","programs"],"every path the grammar derives, with every expression in it, and every JSON document",
 "A panic or an invented value needs a particular operator applied to a particular kind of value; tests pair each path with one document.",
 ["mach/run.go","mach/json.go","mach/fns.go"],[("Run","mach/run.go"),("type switches and conversions","mach/json.go")],
 ["JSONPath.Eval"])

prop("C19","Eval does not change the document, the path, or earlier results",
 "Evaluating a path leaves the document as it was, and evaluating the same compiled path again on the same document gives the same results (but for the order in which the members and keys of an object come) however many evaluations, of it or of other paths, on any documents, successful or failing, came between. A result list belongs to the caller: it is not altered by later evaluations, and overwriting or extending it alters neither the document nor later results.",
 ["histories","inputs"],"every history of evaluations of compiled paths on documents",
 "Tests evaluate each compiled path once on one document, so state left in the path or written into the document cannot show.",
 ["mach/run.go","jsonpath.go"],[("fresh machine per Run","mach/run.go Run"),("result slices built fresh","mach/run.go applySelection, popN")],
 ["JSONPath.Eval"])

prop("C20","Concurrent evaluations of one compiled path do not interfere",
 "When several goroutines evaluate the same compiled path at the same time, on the same or on different documents, each gets the results it would get alone. There is no data race between them, whatever the scheduling.",
 ["schedules"],"every interleaving of concurrent evaluations, for paths with and without loops and errors",
 "No test evaluates concurrently, and interference depends on the interleaving.",
 ["jsonpath.go","mach/run.go"],[("read-only Program, per-Run machine","mach/program.go, mach/run.go"),("producer goroutine per loop","mach/run.go looptop")],
 ["JSONPath.Eval"],
 [("Program","compiled path shared by all evaluations","mach/program.go"),("machine","per-evaluation state","mach/run.go")])

prop("C21","Eval terminates and leaves nothing running behind",
 "Eval always returns, without deadlock, and after it has returned, with a result or with an error raised at any point inside a filter, every goroutine it started has ended or will end by itself. Repeated evaluation therefore does not accumulate goroutines.",
 ["schedules","inputs"],"every document and path, every point at which evaluation stops, every scheduling",
 "Tests never look at goroutines; a leak shows only when evaluation stops early, or as exhaustion after many evaluations.",
 ["mach/run.go"],[("looptop, OpRep, producers over channels","mach/run.go"),("early error returns in Run","mach/run.go")],
 ["JSONPath.Eval"],[("values","stack of channels of the active loops","mach/run.go machine")])

prop("C22","Each literal and name in a path keeps its own value when compiled",
 "However many names, strings, numbers and regular expressions a path contains, and whichever of them are equal, alike in spelling but different in type, or out of the small-integer range, each occurrence denotes at evaluation exactly the value written at that place in the text.",
 ["programs","inputs"],"every collection of constants of every type and magnitude in one path",
 "Constants share a pool keyed by value and small ones are packed into 23-bit fields; mistakes need equal-looking constants of different type or integers near the field's limits.",
 ["mach/coder.go","mach/program.go","mach/run.go"],[("mkVal, codeOp, codeLeaf","mach/coder.go"),("mkSmall, mkOrder, smallInt, isSmallInt","mach/program.go")],
 ["JSONPath.Eval"],[("Program.vals","constant pool","mach/program.go"),("order","packed operation and 23-bit operand","mach/program.go")])

prop("C23","jpath prints one result list per input value, in order, or fails",
 "The jpath command evaluates its path on each JSON value (with -l, on each line) of each named file, or of standard input, in order, and writes exactly one JSON array of results for each, exiting with status 0. A path that does not compile, an unreadable file, malformed input, a run-time error or a write that fails ends it with a message and status 1, after the results of the values before it have been written, and a missing path ends it with status 2.",
 ["inputs","fault_sequences"],"every sequence of input values and files, with a failure at any position",
 "The command has no tests at all.",
 ["cmd/jpath/jpath.go"],[("main, readValues, readLines, errorf","cmd/jpath/jpath.go")],
 ["jpath process: stdout, stderr, exit status"])

prop("C24","What a text compiles to depends on that text alone",
 "Whether Compile accepts a text, and what the compiled path then selects, depends only on the bytes of that text: not on which texts were compiled, rejected or evaluated before (alike ones, many, or ones that failed included), nor on compilations and evaluations going on in other goroutines, with which it has no data race. Compiling a text again gives a path with the same meaning, a path compiled earlier keeps its own text and meaning, and the same holds for the trees that ParsePath and ParseScriptExpression return.",
 ["inputs","histories","schedules"],"every sequence of texts compiled in one process, in any number of goroutines",
 "Each test compiles its texts once, mostly in one order; a cache, pool or table that confuses two texts or survives a failed compilation shows only for particular histories.",
 ["jsonpath.go"]+PARSE+["mach/coder.go","mach/program.go"],
 [("Compile, MustCompile","jsonpath.go"),("parser and lexer state","paths/parser.go, paths/lex.go"),("builder: constants seen so far","mach/coder.go")],
 ["jsonpath.Compile","JSONPath.Eval","paths.ParsePath","paths.ParseScriptExpression"])

prop("C25","Paths that say the same select the same",
 "Two paths that differ only in how they spell the same query give the same results on every document, or both an error: a name after '.' or as a bare, single- or double-quoted subscript; '.*' and '[*]', and the same after '..'; absent slice parts and their defaults; white space between tokens; redundant parentheses; 'a != b' and '!(a == b)', 'a nin b' and '!(a in b)', 'a < b' and 'b > a', 'a =~ b' and 'a ~ b', De Morgan's laws, 'a - b' and 'a + -b', '@.length' and 'length(@)' and such, where the operands have values. A path of two parts gives what its second part gives on each result of the first, a union what its elements give together, '..' a selector what the selector gives on the value and on everything beneath, and a filter together with its opposite all candidates.",
 ["inputs","programs"],"every document and every pair of paths related by one of the laws",
 "A test compares one spelling with fixed results; that two different spellings, which take different ways through lexer, parser, code generator and machine, agree on every document is a relation over all of them.",
 ["jsonpath.go"]+PARSE+RUN,
 [("parseMember, parseSubscript, parseSlice","paths/parsepath.go"),("expr, primary","paths/parseexpr.go"),("builder.codeExpr","mach/coder.go"),("Run","mach/run.go")],
 ["jsonpath.Compile","JSONPath.Eval"])

prop("C26","The printed form of a compiled path is faithful",
 "Program.String lists a compiled path: it always gives a text (no panic), the same one each time, before, during and after evaluations in any goroutine, and changes nothing; two programs that print the same give the same results on every document, or both an error, whichever paths they came from (computed slice bounds, which are not implemented, aside). Likewise the texts of two integers, names, strings or slices in a path, and of two integers or strings in an expression tree, are the same only if they are equal; the text of an integer, slice, boolean or null reads back as the same; each operator has a name of its own, with which the text of a step begins.",
 ["inputs","programs","schedules"],"every pair of programs, every constant, every interleaving of printing and evaluation",
 "The tests compare the listings of a file of sample paths; that no two programs with different meanings share a listing, whatever their constants, is a statement about all pairs of programs.",
 ["mach/text.go","mach/program.go","mach/coder.go","paths/val.go","paths/path.go","paths/expr.go","paths/ops.go"],
 [("Program.String","mach/text.go"),("floatVal.String, regexpVal.String","mach/program.go"),("IntVal, NameVal, StringVal, Slice: String","paths/val.go"),("Step.String","paths/path.go"),("Op.GoString","paths/ops.go")],
 ["mach.Compile","Program.String","Program.Run","paths.ParsePath","Step.String","Op.GoString"])

prop("C27","A rejection says where",
 "When Compile or ParseScriptExpression rejects a text, the error has a message, the same one each time, and any offset it names lies within the text. A byte that no path can have outside of its strings, put between two tokens of a path, is reported by its own offset or one in the token just before it, whatever precedes and whatever follows. The reader goes from left to right: changing what comes after the byte beyond the offset named (patterns aside, whose errors name their start, and errors without an offset) leaves the error as it is.",
 ["inputs"],"every text that is rejected, and everything that may follow the place where it is",
 "The tests compare the messages for a few malformed paths; that the place named is where the text goes wrong, for any text and anything that follows, is a relation over all of them.",
 PARSE,
 [("rd.get, rd.unget, rd.offset","paths/rd.go"),("lexer.tokenErr, lexer.isNext","paths/lex.go"),("parser.expect","paths/parser.go"),("parseStep, parseSubscript","paths/parsepath.go")],
 ["jsonpath.Compile","paths.ParseScriptExpression"])

prop("C28","A parsed path is data",
 "The steps that paths.ParsePath returns, and the trees of ParseScriptExpression, are values that a program can keep and combine. Compiling and running them leaves them as they are, so that they can be compiled any number of times, by several goroutines at once, always with the same results; mach.Compile and Run give for them what jsonpath.Compile and Eval give for the text. The steps of two paths put together are the path of the two texts, any run of consecutive steps is the path of their texts, and compiling it leaves the other steps alone; an expression parsed on its own can be placed as filter, subscript or operand, in several places at once, and means there what its text means. Steps and leaves built with any value (a 64-bit index, bound or literal, any finite double, any name or string) select or compare as that value does. Nodes are consistent: Opcode, IsLeaf, HasVal, the type of the node and the number of operands agree; Kid gives each operand, and nil and false past the last. IsObject, IsArray and IsStructure tell the kind of any JSON value.",
 ["inputs","programs","histories","schedules"],"every pair of paths, every cut, every constant, every history of compilations, every interleaving",
 "The tests parse, compile and print each sample path once; that steps can be reused, shared, joined and cut, and hold any value, is about all the ways to combine them.",
 ["paths/path.go","paths/expr.go","paths/val.go","paths/ops.go","paths/parseexpr.go","paths/parsepath.go","mach/coder.go","mach/program.go","mach/run.go","mach/json.go"],
 [("Path, Step","paths/path.go"),("Inner.Kid","paths/expr.go"),("Op.IsLeaf, Op.HasVal","paths/ops.go"),("Compile, builder.codeExpr, builder.mkVal","mach/coder.go"),("Program.Run, sliceEval","mach/run.go"),("IsObject, IsArray, IsStructure","mach/json.go")],
 ["paths.ParsePath","paths.ParseScriptExpression","mach.Compile","Program.Run","Inner.Kid","Op.IsLeaf","Op.HasVal","mach.IsObject","mach.IsArray","mach.IsStructure"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
