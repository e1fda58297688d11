#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
FIND=["Find","Search"]
INCL="the regression suite samples one document per selector and only checks that the expected values are contained in the result, never that nothing else is"
p("C01","Key, index and wildcard steps select exactly the addressed nodes",
 "For every document and every path of object-key, array-index and wildcard steps from the root, evaluation reports exactly the nodes at the addressed positions, each once and array elements in order. A key step selects a member iff the object has that key, even when its value is null; an index counts from the start, or from the end when negative, and selects nothing when it is out of range; a wildcard selects every member or element. A key that is not a number selects nothing on an array, and every step selects nothing on a scalar.",
 ["inputs","histories"],"all documents x all sequences of steps",
 "The quantifier is over all documents, sizes, nestings and step sequences; "+INCL+".",
 ["path.go","docmodel.go","itr.go"],[("keySelector.selectChildNodes/match","path.go"),("wildcardSelector","path.go"),("evaluateAt non-recursive branch","path.go"),("MapModel.Key","docmodel.go")],FIND,
 [("ctx.path","stack of segments from the root to the current node, pushed and popped around every child","path.go evaluateAt")])
p("C02","Slices select exactly what [start:end:step] denotes",
 "On an array, [start:end:step] selects exactly the elements a Python slice with the same bounds selects, and in the same order when the slice stands alone in its brackets as a child step, for every combination of omitted, positive, negative, out-of-range and extreme bounds and every positive or negative step; step 0 selects nothing. On anything that is not an array a slice selects nothing.",
 ["inputs"],"all array lengths x all start, end, step including omitted and 64-bit extremes x the contexts a slice can appear in",
 "Index arithmetic has off-by-one, clamping and overflow corners for every length/bound/step combination; the suite has about 25 fixed slices, none with a checked negative step.",
 ["slice.go","itr.go","parser.go"],[("getRange/normalizeIndex","slice.go"),("sliceSelector, rangeSelector","slice.go"),("rangeIterator.next","itr.go"),("astSlice","parser.go")],FIND)
p("C03","Recursive descent visits every descendant exactly once",
 "A `..` step applies its selector to the children of every node in the subtree of each current node (including that node itself), at every depth and whatever the size of the document: every descendant that the selector selects is reported exactly once per current node, parents before their descendants and siblings in document order. A trailing `..` means `..*`.",
 ["inputs","histories"],"all documents, depths and positions of one or more `..` steps in a path",
 "Duplicates, omissions and wrong order depend on the shape of the tree and on what follows; tests only check containment, so duplicated results pass.",
 ["path.go","parser.go"],[("evaluateAt descend","path.go"),("RecursiveDescent*ExpressionContext","parser.go astPath")],FIND)
p("C04","A union selects exactly the union of its alternatives",
 "[s1,s2,...] selects a child iff at least one of the alternatives alone selects it, for any mixture of keys, indexes, slices, wildcards and filters, wherever the union appears in a path (also after `..`); each selected child is reported once, in document order, however many alternatives select it.",
 ["inputs"],"all documents x all lists of alternatives x positions in a path",
 "Alternatives are decided by a different code path (matching a child) than single selectors (generating children); both must agree for every selector and document, tests try a dozen.",
 ["path.go","parser.go","slice.go"],[("unionSelector.match","path.go"),("astBracketedSelector, astBracketedSelectorExpressions","parser.go"),("match methods of each selector","path.go, slice.go")],FIND)
p("C05","A filter selects exactly the children satisfying its predicate",
 "?(expr) selects exactly those members or elements for which expr is true with `@` denoting the candidate and `$` the document root, at any nesting of filters and at any position in a path, and later steps continue from the selected nodes. A path used as a predicate is false if it selects nothing or only a false, 0 or \"\" value, and true if it selects an object, an array, any other boolean, number or string, or several nodes; &&, || and ! combine predicates.",
 ["inputs"],"all documents x predicates x positions x nestings",
 "Scoping of @ and $ and truthiness must hold for every nesting and document; the suite's filter queries mostly have no consensus value and are skipped.",
 ["path.go","expression.go"],[("filterSelector.match","path.go"),("pathExpression.evaluate","expression.go"),("exprValue.asBool","expression.go"),("landExpression, lorExpression, notExpression","expression.go")],FIND)
p("C06","Comparisons follow values, not representation or operand order",
 "In filters, ==, !=, <, <=, >, >= compare numbers by mathematical value whatever their representation (integer or decimal, Go int or float64 in the document, literal or computed; an integer is compared with a decimal in float64 precision) and strings by content (code point order for <, <=, >, >=). Values of different scalar types, a scalar and an object, array or list, and a scalar and a missing node are never equal; null equals only null; != is always the negation of ==; === and !== give what == and != give, except that an integer and an equal decimal may differ; ordering a number or string against a missing node, object or array is false; and for two numbers or two strings a<b iff b>a, and a<=b iff b>=a.",
 ["inputs"],"all pairs of operands (literals and paths) x operators x numeric representations of the document",
 "The comparison code is a matrix of dynamic type pairs x operators; the suite uses YAML ints only and a handful of pairs.",
 ["expression.go"],[("equalityExpression.evaluate","expression.go"),("compareExpr","expression.go"),("relationalExpression","expression.go")],FIND)
p("C07","Arithmetic and operator precedence in filter expressions",
 "+, -, * and unary minus on numbers, ** as a floating-point power, / and % by nonzero divisors yield the mathematical result (division of two integers may truncate), and an operation on a missing or non-numeric, non-string, non-boolean operand never equals a number. Operators group as the grammar documents: unary, then ** (right associative), then * / %, + -, relational, in, equality, &&, ||, left associative, parentheses overriding, so an expression without parentheses equals its fully parenthesised form.",
 ["inputs","programs"],"all expressions up to a size over all operators and operand kinds",
 "The property ranges over all expression trees; only two or three arithmetic queries exist in the suite, none with a checked result.",
 ["expression.go","parser/jsonpath_parser.go","Jsonpath.g4"],[("add/sub/mul/div/mod/pow/unaryMinusExpression","expression.go"),("valueAsNumber","expression.go"),("astExpression operator cases","expression.go"),("expression rule precedence","Jsonpath.g4")],FIND)
p("C08","The in operator is list membership and length() counts elements",
 "`x in list` is true iff x equals (in the sense of ==) at least one element of the list, where the list is an array literal, an array node of the document, or the several nodes a path selects; it is false for an empty list and for a missing right-hand side. length(p) and p.length() are the number of elements of the array p selects, on every document model, and length([...]) is the number of elements of the list.",
 ["inputs"],"all element values x all lists up to a length x forms of the list, all array lengths",
 "Membership depends on every element position and type pair; the suite has two `in` queries without consensus and one length query.",
 ["expression.go","funcs.go"],[("inExpression.evaluate","expression.go"),("arrayExpression.evaluate","expression.go"),("methodCallExpression, functionCallExpression","expression.go"),("lengthFunc","funcs.go")],FIND)
p("C09","Computed slice bounds are evaluated at the array being sliced",
 "Slice bounds and steps may be expressions; `@` in them denotes the array being sliced and `$` the root, so [0:@.length()-1], [@[0]:] or [$.n:] select exactly the elements the slice with the computed constants selects, also after `..` and inside unions.",
 ["inputs"],"all arrays x bound expressions x contexts",
 "Generating and matching elements evaluate the bounds at different times and nodes; no test uses a computed bound.",
 ["slice.go","parser.go"],[("context.parent","slice.go"),("getRange","slice.go"),("astSlice","parser.go")],FIND)
p("C10","String literals denote the string they spell",
 "A quoted key or string literal, single or double quoted, denotes exactly the characters between its quotes with the escapes \\\\ \\' \\\" \\/ \\b \\f \\n \\r \\t \\v \\0, \\xHH, \\uHHHH (including surrogate pairs) and \\u{H...} replaced by the characters they name, for every Unicode character; a backslash before any other character except a digit denotes that character, and before a line end nothing.",
 ["inputs"],"all characters x all escape forms x both quotes x positions (key, comparison)",
 "There are 1.1 million characters and the escapes can be adjacent in any combination; tests cover three literals.",
 ["expression.go","parser/jsonpath_lexer.go"],[("unescapeString","expression.go"),("singleEscapeRunes","expression.go"),("StringLiteral","Jsonpath.g4")],["Find","Parse"])
p("C11","Numeric literals denote the number they spell",
 "Decimal literals (with optional fraction, exponent in either case, and _ separators between digits), and 0x, 0o and 0b literals in either case with _ separators where the grammar allows them, denote the number they spell, both in filter expressions and as array index or slice bound; a leading zero does not make a literal octal.",
 ["inputs"],"all literals up to a length over the digit, separator, prefix, point and exponent alphabet",
 "The literal forms combine; tests use plain integers and one float.",
 ["expression.go","parser/jsonpath_lexer.go"],[("numericLiteral","expression.go"),("astKeySelectorFromLiteral","parser.go")],["Find","Parse"])
p("C12","MakeKeyString and Join round-trip every key",
 "For every valid UTF-8 key, '/' or '$.' followed by MakeKeyString(key) is a well-formed path that selects exactly the member with that key; for every list of keys, Join(keys...) selects exactly the node reached by following those keys from the root (the root itself for an empty list).",
 ["inputs"],"all strings and lists of strings",
 "The quantifier is over all strings, including every Unicode character, quote, backslash and line terminator combination and reserved words; the test tries five keys and never parses the result.",
 ["escape.go","simplepath.go","expression.go"],[("MakeKeyString, Join","escape.go"),("unescapeString","expression.go"),("astSimplePath","simplepath.go")],["MakeKeyString","Join","Parse","Find"])
p("C13","Simple '/' paths address the nodes their components name",
 "/c1/c2/... selects exactly the nodes reached by taking from the root the object member named by each component, the array element at that index for a numeric component, or every child for *; components are taken literally (null, true, 007, 1.0 are the keys of that spelling; quoted components are the quoted string), and '/' alone is the root.",
 ["inputs"],"all documents x component sequences x component forms",
 "All component forms and their combinations; the test has five paths over clean documents.",
 ["simplepath.go","parser.go"],[("astSimplePath","simplepath.go"),("Parse","parser.go")],["Parse","Find"])
p("C14","Equivalent notations compile to equivalent paths",
 "Dot notation, bracket notation with single or double quotes, dotted quotes, and white space wherever the grammar permits it between the tokens of a path are interchangeable: two spellings of the same steps select the same nodes in the same order on every document, and the bare-identifier form is accepted for every identifier.",
 ["inputs"],"all step sequences x spellings x documents",
 "The spellings of one path multiply per step and go through different parse-tree shapes; tests compare none of them.",
 ["parser.go","parser/jsonpath_parser.go","Jsonpath.g4"],[("astPath","parser.go"),("astBracketedSelector, ArrayLiteralExpressionContext","parser.go")],["Parse","Find"])
p("C15","Parse rejects malformed paths",
 "Parse returns an error, and no usable path, for every input that the published grammar (Jsonpath.g4) does not derive, whether the mistake is a bad token, a missing or extra token, or trailing input, and the error is an ErrSyntax (errors.As); input the grammar derives is never reported as a syntax error. The one input accepted beyond the grammar is '/' alone, the root (what Join() returns), possibly followed by white space.",
 ["inputs"],"all token sequences and character sequences up to a length",
 "The set of malformed inputs is infinite; the test only prints errors, and no test checks that anything is rejected.",
 ["parser.go","parser/jsonpath_parser.go","parser/jsonpath_lexer.go"],[("Parse error listener","parser.go"),("errorListener.SyntaxError","parser.go")],["Parse","ParseAndFind"])
p("C16","Parsing and evaluation never panic",
 "Parse returns a path or an error for every input string, and every path Parse returns can be evaluated on every document, of any shape including scalar and nil roots, without panicking and with a nil error. (How long parsing takes is not bounded: it grows exponentially with the nesting of brackets.)",
 ["inputs"],"all inputs x documents",
 "Panics hide in combinations of token order and document shape (missing children, misaligned tables, overflow, uncomparable values).",
 ["parser.go","path.go","expression.go","slice.go","itr.go"],[("astPath, astExpression, astArgumentExpression","parser.go, expression.go"),("evaluateAt","path.go")],["Parse","Find","Search"])
p("C17","Search reports the true path of every match, and it stays true",
 "Every path passed to capture starts at the document root and each following segment is the child of the previous one under the reported name or index with the reported type and node, ending at the matched node. A captured path never changes afterwards: not while the search continues, not by later searches, and not when captured paths are extended or shortened by the caller.",
 ["inputs","histories"],"all documents x paths x sequences of captures and caller operations",
 "Aliasing between captured paths shows only for particular orders of pushes, pops and captures; no test calls Search directly.",
 ["path.go","docpath.go"],[("Search capture wrapper","path.go"),("DocPath.Key/Index/Push/Pop","docpath.go")],["Search"],
 [("ctx.path.P","shared segment buffer","path.go")])
p("C18","Evaluation depends only on the DocModel contract",
 "Evaluation uses a document model only as its interface documents: Keys and Key on object nodes, Elem on array nodes with an index in range, Len on object or array nodes, Value on value nodes, and only nodes obtained from the model; it never compares nodes. Hence isomorphic documents give corresponding results in every model, whatever the Go type of its nodes.",
 ["inputs","configurations"],"all documents x paths x node representations",
 "Tests only use MapModel, which tolerates every misuse.",
 ["path.go","slice.go","itr.go","expression.go","docmodel.go"],[("nodeValue.getValue","expression.go"),("evaluateAt","path.go"),("MapModel","docmodel.go")],["DocModel","Find","Search"])
p("C19","Evaluation is free of side effects and independent of history",
 "Evaluating a path modifies neither the document nor the path: the same path on the same document gives the same results again, after any sequence of other evaluations of the same or other paths on the same or other documents, and from within a capture callback; and nothing is written to the process's standard output or error.",
 ["histories"],"all sequences of evaluations up to a length, including nested ones",
 "State kept between evaluations shows only in particular sequences; every test parses a fresh path and evaluates it once.",
 ["path.go","expression.go","slice.go","itr.go"],[("immutable selectors","path.go, slice.go"),("context per Search","path.go")],["Find","Search"])
p("C20","Concurrent evaluations do not interfere",
 "Any number of goroutines may evaluate the same compiled path, or different ones, on the same or different documents at the same time: under every interleaving each evaluation reports what it reports alone, and there is no data race.",
 ["schedules"],"all interleavings of concurrent evaluations",
 "There is no concurrent test, and a test would sample a few schedules.",
 ["path.go","expression.go","slice.go","itr.go","funcs.go"],[("no shared mutable state in selectors and expressions","path.go, expression.go")],["Find","Search"])
p("C21","Parse is a pure function of its input",
 "The result of Parse depends only on its argument: not on paths, valid or malformed, parsed before in the same process, nor on concurrent calls to Parse, and compiling or combining further paths never changes a path compiled earlier; and nothing is written to the process's standard output or error.",
 ["histories","schedules"],"all sequences and interleavings of Parse calls",
 "The parser keeps lazily built process-wide tables; each test process parses each input once, sequentially.",
 ["parser.go","parser/jsonpath_parser.go","parser/jsonpath_lexer.go"],[("Parse","parser.go"),("JsonpathParserStaticData, JsonpathLexerLexerStaticData","parser/")],["Parse"],
 [("decisionToDFA","process-wide DFA cache","parser/jsonpath_parser.go")])
p("C22","Path combinators compose paths",
 "Append(p1,...,pn) selects what pn selects starting from the nodes p1...pn-1 select, and the empty Path{} as an operand changes nothing; RecursiveDescent(p) followed by further steps is p followed by `..` and those steps; SelectRootPath, WildcardPath, KeySelectorPath(k) and IndexSelectorPath(i) are $, [*], [k] and an index step that selects array elements only; combining leaves the operands and every earlier result unchanged.",
 ["histories","programs"],"all combinator sequences up to a length over a pool of paths x documents",
 "Aliasing of operand slices shows only when results share prefixes; combinators have no test.",
 ["path.go"],[("Append, RecursiveDescent","path.go"),("KeySelectorPath, IndexSelectorPath","path.go")],["Append","RecursiveDescent","KeySelectorPath","IndexSelectorPath","Find"])
p("C23","Find, Search and ParseAndFind agree",
 "Find returns exactly the nodes at the ends of the paths Search captures, in the same order and multiplicity, as a non-nil slice; Search calls capture synchronously once per match; ParseAndFind(doc, s) equals Find(doc, Parse(s)) when s is well-formed and returns Parse's error and a nil result otherwise.",
 ["inputs"],"all paths x documents",
 "Only Find is tested, and only for containment.",
 ["path.go"],[("Find, ParseAndFind, Search","path.go")],["Find","Search","ParseAndFind"])
p("C24","MapModel presents Go JSON values as the documents they are",
 "For every document made of map[string]any, []any and other values (what encoding/json decodes, Go integers included), MapModel answers as the DocModel interface documents: Root is the document; Type is ObjectNode, ArrayNode or ValueNode (nil included); Len is the number of members or elements; Keys lists every key of an object exactly once; Key gives a member and true iff the object has the key, also when the member is null, and false otherwise; Elem gives every element; Value gives the value. The calls and evaluations leave the document unchanged, and after the owner of the document changes it the answers are those for the document as it is then.",
 ["inputs","histories"],"all documents x all calls x all sequences of edits by the document's owner",
 "MapModel is what nearly every user evaluates on, and is only tested through Find with expected values contained in the result: a key listed twice or missed, an absent key that is found, or an answer kept from an earlier state of the document shows only for particular documents and histories.",
 ["docmodel.go"],[("MapModel.Type, Len, Key, Keys, Elem, Value","docmodel.go")],["MapModel","DocModel"])
p("C25","DocPath operations give new paths and change no other path",
 "Key, Index and Push give the path they are called on followed by the given segment (node, type, and name or index), Pop gives it without its last segment, Last is the last segment and Len the number of segments; and no operation ever changes a path obtained before, whether it was captured by Search, made from DocPath{}, or derived from the same or another path.",
 ["histories","inputs"],"all sequences of operations up to a length on all paths made so far x all segments",
 "Paths that share storage overwrite each other only when two of them are extended from the same path and there is room behind it, which depends on how that path grew; no test keeps two paths.",
 ["docpath.go"],[("DocPath.Key, Index, Push, Pop, Last, Len","docpath.go")],["DocPath.Key","DocPath.Index","DocPath.Push","DocPath.Pop","DocPath.Last","DocPath.Len","Search"])
for x in P:
    assert len(x["title"])<=80,x["title"]
    print(json.dumps(x,ensure_ascii=False))
