#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties' single source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

DOM, SAX, XP = "src/dom.rs", "src/sax.rs", "src/xpath.rs"
EV, PA, LE = "src/xpath_impl/eval.rs", "src/xpath_impl/parser.rs", "src/xpath_impl/lexer.rs"
FU, OP, XI, XS = ("src/xpath_impl/func.rs", "src/xpath_impl/oper.rs",
                  "src/xpath_impl/xitem.rs", "src/xpath_impl/xsequence.rs")

p("C01", "Parsing preserves every information item of a well-formed document",
  "For every well-formed document, the parsed tree contains exactly the elements, attributes, text, CDATA content, comments, processing instructions and XML declaration that the document contains, with the same names, values and order, and nothing else. Text between tags is kept verbatim (white space included, except that every line end, CR LF or CR or LF, is read as one line feed), non-empty CDATA content is kept literally as its own text node, a document type declaration contributes no node, and an attribute's value does not depend on which quote character delimits it or on white space inside the tag. The tree's navigation methods (parent, children, n-th child, attributes, attribute value by name, root, root element) all describe that same tree.",
  ["inputs"], "all well-formed documents in the supported subset, in every lexical variation (quotes, white space, CDATA, comments, PIs, directives, non-ASCII names)",
  "The tests parse a few dozen fixed documents; lexical variation and nesting combine without bound.",
  [DOM, SAX], [("tree construction", "src/dom.rs: new_document"), ("tokenizer", "src/sax.rs: SaxDecoder::raw_token"), ("attribute scanning", "src/sax.rs: attributes of a start tag")],
  ["NodePtr accessors after new_document"])

p("C02", "Serializing a tree and parsing it again gives the same tree",
  "For every document tree, however it was made (parsed or edited), converting it to a string gives well-formed markup whose parse is a tree with the same elements, attributes, comments, processing instructions and the same text, and converting that tree to a string again gives the same string. Markup-significant characters in text and attribute values are escaped so that they survive. The inner XML of a node is the concatenation of its children's strings, and an attribute set to any value is read back as that value, also after a round trip.",
  ["inputs", "histories"], "all parsed documents and all trees reached by edits, with arbitrary characters in text and attribute values",
  "The tests compare a handful of serializations with fixed strings; escaping errors need particular characters in particular places.",
  [DOM], [("serializer", "src/dom.rs: to_string_with_indent"), ("escaping", "src/dom.rs: entity encoding helpers"), ("set_attribute", "src/dom.rs: NodePtr::set_attribute")],
  ["NodePtr::to_string, inner_xml, reparse"])

p("C03", "The event stream reports every markup event once, in document order",
  "For every well-formed document, the token stream yields exactly one start event per start tag (with its attributes in order), one matching end event per element (an empty-element tag gives a start immediately followed by an end), and one event for each run of character data, CDATA section, comment, processing instruction and directive, in document order, and then end-of-file on every further call. Start and end events nest properly.",
  ["inputs"], "all well-formed documents, read token by token to and past the end",
  "Tests read a few fixed documents; they do not check conservation of events over all lexical forms, nor repeated reads at the end.",
  [SAX], [("token dispatch", "src/sax.rs: SaxDecoder::raw_token"), ("self-closing tags", "src/sax.rs: pending end element")],
  ["SaxDecoder::raw_token"])

p("C04", "Character and entity references are decoded exactly once",
  "In text and attribute values, each of the five predefined entities and each decimal or hexadecimal character reference is replaced by the character it names, exactly once: text produced by a reference is never decoded again, and the surrounding characters are unchanged. CDATA sections, comments and processing instructions are not decoded at all. The same reference gives the same character in text and in attribute values.",
  ["inputs"], "all texts and attribute values mixing references, ampersand-like sequences and ordinary characters, for every scalar value",
  "Tests decode a few fixed references; double decoding and boundary code points need particular combinations.",
  [SAX, DOM], [("entity decoding", "src/sax.rs: decode_entity and callers"), ("entity encoding", "src/dom.rs: serializer escaping")],
  ["value() of text and attribute nodes", "CharData and StartElement tokens"])

p("C05", "Ill-formed markup is rejected",
  "A document whose tags do not match or nest, that ends inside a tag, comment, CDATA section, processing instruction or declaration or with an element still open, or that contains a malformed tag (missing or illegal name, attribute without a quoted value, stray characters in a tag) is rejected with an error, never turned into a tree. Removing or changing structure-relevant characters of a well-formed document in one of these ways always gives an error.",
  ["inputs"], "all documents obtained by structurally damaging a well-formed document, at every position",
  "Tests reject a few fixed documents; the positions and kinds of damage are unbounded.",
  [SAX, DOM], [("tag matching", "src/dom.rs: new_document EndElement arm"), ("name characters", "src/sax.rs: name start/name char tables"), ("end of input", "src/sax.rs: EOF handling")],
  ["new_document's result"])

p("C06", "The XML parser never panics or hangs on any input",
  "For every input string, building a tree and reading the token stream to its end or first error terminate, without panicking or overflowing and in time and memory bounded by a modest multiple of the input size (for inputs of moderate nesting depth), and give a tree or an error. If a tree is returned, every accessor and serializer also works on it.",
  ["inputs"], "all strings: random, mutated, truncated and adversarial",
  "Tests feed only sensible input; totality is a claim about all inputs.",
  [SAX, DOM], [("character reader", "src/sax.rs: get/unget of characters"), ("token loops", "src/sax.rs: loops until a delimiter")],
  ["process outcome, result value, wall time"])

p("C07", "The tree stays structurally sound under every sequence of edits",
  "After any sequence of append, insert-before, insert-after, replace, delete and attribute edits, on one or more documents, every child's and attribute's parent is the node that lists it, no node is listed by two parents or twice by one, no node is its own ancestor, following parents always reaches the root reported for the node, and a removed node has no parent. Nodes held by the caller stay usable after being removed or after their document is dropped.",
  ["histories"], "all finite histories of edit operations over one or several documents, including misuse (moving a node under itself, editing detached or dropped trees)",
  "Tests perform single edits on fixed documents; invariants can break only after particular sequences.",
  [DOM], [("append_child", "src/dom.rs: NodePtr::append_child"), ("delete_child", "src/dom.rs: NodePtr::delete_child"), ("parent links", "src/dom.rs: weak parent references")],
  ["parent(), children(), attributes(), root() after every step"], [("children/attributes vectors", "ownership of subtrees"), ("parent weak pointer", "back link of each node")])

p("C08", "Each edit has exactly its documented effect and no other",
  "Appending moves the given subtree to the end of the new parent's children; inserting before or after places a copy of the whole subtree (attributes and descendants included) right next to the reference node and leaves the source unchanged; replacing puts such a copy in the node's place; deleting removes exactly that child. Setting an attribute changes or adds exactly that attribute (keeping the order of the others) and deleting removes exactly it. Edits that make no sense (a missing child or attribute, a sibling of a node with no parent, a node moved under itself) leave the tree unchanged.",
  ["histories"], "all finite edit histories compared step by step with a reference tree",
  "Tests check one edit at a time on one document; aliasing between the source and the copy shows only in later steps.",
  [DOM], [("insert/replace copies", "src/dom.rs: copy_rc_node"), ("attribute edits", "src/dom.rs: set_attribute, delete_attribute"), ("child index", "src/dom.rs: find_child_index")],
  ["whole tree after every step"])

p("C09", "Document order is a strict total order that matches the tree, always",
  "For any two nodes of one tree, exactly one of 'is the same node', 'precedes' and 'follows' holds, and it agrees with the tree: a parent precedes its attributes, which precede its children, siblings are ordered as listed, and whole subtrees are ordered as their roots. This holds at every moment, however the tree was edited before, between or after queries; the node comparison operators of the query language and the document order numbers agree with it.",
  ["inputs", "histories"], "all pairs of nodes of all trees, at every point of every edit and query history",
  "Tests compare a few pairs in unedited documents; stale order numbers need an edit after a query.",
  [DOM, EV, OP], [("order numbering", "src/dom.rs: document_order, clear_document_order"), ("sorting", "src/xpath_impl/eval.rs: compare_by_doc_order, sort_by_doc_order"), ("node comparison", "src/xpath_impl/oper.rs: op_node_compare")],
  ["document_order(), << >> is, query results after edits"], [("order cell", "cached order number of a node, reset by edits")])

p("C10", "Names and namespaces resolve as the nearest declaration says",
  "For every element and attribute, the prefix is the part of its name before the first colon (empty if none) and the local name is the rest. An element's namespace is the one declared for its prefix (or the default namespace, if it has no prefix) by the nearest enclosing element that declares it, and an attribute without a prefix has no namespace; an undeclared prefix gives an empty namespace. The corresponding query functions (name, local-name, namespace-uri) agree with the tree's methods on every node.",
  ["inputs"], "all documents with nested, overriding and missing namespace declarations",
  "Tests use one or two declarations; shadowing at several levels is not sampled.",
  [DOM, FU], [("namespace lookup", "src/dom.rs: namespace_uri"), ("name splitting", "src/dom.rs: local_name, space_name"), ("functions", "src/xpath_impl/func.rs: name, local-name, namespace-uri")],
  ["namespace_uri(), local_name(), space_name(), name functions"])

p("C11", "Pretty printing only adds indentation and line breaks",
  "For every node, the pretty-printed form puts each node of the subtree on a line of its own, in document order, indented by four spaces per level below the printed node, with an element that has children printed as a start line, its children and an end line, and a childless element as one empty-element line. Removing the added indentation and line ends gives back exactly the ordinary serialization.",
  ["inputs"], "all trees, printed from every node",
  "Tests compare one or two fixed outputs.",
  [DOM], [("serializer with indent", "src/dom.rs: to_string_with_indent")],
  ["to_pretty_string against to_string"])

p("C12", "Queries are pure, repeatable, and all entry points agree",
  "Evaluating an expression never changes the document or any earlier result, and evaluating the same expression again on the same node of the unchanged document gives the same result. The entry points agree: the node set and the visiting iteration give the nodes of the full evaluation's result in the same order, and the first-node entry point gives the first of them (none if there is none or the evaluation fails); an expression that fails in one fails in all of them.",
  ["inputs", "histories"], "all expressions evaluated repeatedly and interleaved through all entry points from any context node",
  "Tests evaluate each expression once through one entry point.",
  [XP, EV], [("entry points", "src/xpath.rs: eval_xpath, get_first_node, each_node, get_nodeset"), ("evaluation environment", "src/xpath_impl/eval.rs: EvalEnv")],
  ["results of repeated calls, serialization before and after"])

p("C13", "Dropping a document releases all of its memory",
  "When the last handle to a document, its nodes and the results of its queries is dropped, all memory allocated on its behalf is released, whatever was parsed, edited or queried before, and including when parsing or evaluation failed. A node handle alone never keeps the rest of its document alive through its parent link.",
  ["histories"], "all histories of parse, edit, query and drop, including failing ones",
  "Tests never measure memory; reference cycles are invisible to assertions on values.",
  [DOM, PA, EV], [("weak parent links", "src/dom.rs: Node.parent"), ("syntax tree nodes", "src/xpath_impl/parser.rs: XNodePtr")],
  ["live heap bytes before and after"])

p("C14", "Location steps select exactly the nodes of their axis and node test",
  "From every context node, each axis (child, descendant, descendant-or-self, self, parent, ancestor, ancestor-or-self, following, preceding, following-sibling, preceding-sibling, attribute) together with a name test (with or without a prefix, '*', 'prefix:*', '*:name') or a kind test (node(), text(), comment(), processing-instruction(), element(), attribute()) selects exactly the nodes standing in that relation that pass the test, each once and in document order. Abbreviated steps ('@', '..', '.', '//', a bare name) mean the same as their long forms, and an absolute path starts from the root of the tree containing the context node.",
  ["inputs"], "all trees, context nodes, axes and node tests, and chains of steps",
  "Tests fix a few documents and a few steps per axis; axes interact with tree shapes and attribute context nodes.",
  [EV, PA], [("axis arrays", "src/xpath_impl/eval.rs: array_* functions"), ("node tests", "src/xpath_impl/eval.rs: match_loc_step, kind and name tests"), ("abbreviations", "src/xpath_impl/parser.rs: parse_axis_step")],
  ["node identity of query results"])

p("C15", "A path's node result is in document order without duplicates",
  "Every path expression that yields nodes yields them in document order with each node at most once, however many ways the steps reach it; a path whose last step yields atomic values gives them in document order of the nodes they were computed from. The left operand of a path must be nodes and a mixture of nodes and atomic values is an error, while the '!' operator simply concatenates the results for each item in order, keeping duplicates.",
  ["inputs"], "all paths of any length mixing forward and reverse axes, parentheses, functions and '!', on all trees",
  "Tests cover short forward paths; duplicates and misorder arise from overlapping steps on repeated structures.",
  [EV, PA], [("path operator", "src/xpath_impl/eval.rs: OperatorPath"), ("sort and dedup", "src/xpath_impl/eval.rs: sort_by_doc_order"), ("map operator", "src/xpath_impl/eval.rs: OperatorMap")],
  ["node identity and order of query results"])

p("C16", "Predicates filter by position or truth, counting along the axis",
  "A numeric predicate keeps exactly the item whose position equals the number and any other predicate keeps the items for which its effective boolean value is true; successive predicates renumber. In an axis step positions count in axis direction (so reverse axes count from the nearest node), in a parenthesized or other expression they count in sequence order, and position() and last() report them, also inside nested predicates, paths and '!'.",
  ["inputs"], "all predicates (numeric, boolean, node-valued, nested, repeated) on all axes and sequences",
  "Tests use small fixed positions; nested predicates and reverse axes combine.",
  [EV, FU], [("predicate filter", "src/xpath_impl/eval.rs: filter_by_predicate"), ("position and last", "src/xpath_impl/func.rs: fn_position, fn_last")],
  ["query results"], [("context position and size", "saved and restored around each evaluation")])

p("C17", "Union, intersection and difference of node sets",
  "For node sequences A and B, 'A union B' ('|'), 'A intersect B' and 'A except B' give exactly the nodes in either, in both, and in A but not B, by node identity, each once and in document order, whatever the order or multiplicity of the operands. An operand with an item that is not a node is an error.",
  ["inputs"], "all pairs of node sequences, with duplicates and in any order, and nested combinations",
  "Tests use a few disjoint or nested sets in document order.",
  [OP], [("set operators", "src/xpath_impl/oper.rs: op_union, op_intersect, op_except")],
  ["node identity of query results"])

p("C18", "Arithmetic follows the numeric types exactly and never wraps",
  "For every pair of operands, +, -, *, div, idiv, mod and unary plus/minus give the mathematically correct result in the wider of the operand types (integer, decimal, double; div of integers gives a decimal, idiv an integer truncated toward zero, mod the sign of the dividend). Integer results outside the 64-bit range and division by zero (except floating-point div and mod, which give infinities or NaN) are errors, never wrapped or wrong values; an empty operand gives an empty result and a non-numeric operand an error.",
  ["inputs"], "all operand pairs of all numeric types including extremes, zeros, infinities and NaN, and nested expressions",
  "Tests sample small operands; overflow, sign and type-promotion corner cases are not sampled.",
  [XI, OP], [("numeric operators", "src/xpath_impl/xitem.rs: xitem_numeric_*"), ("promotion", "src/xpath_impl/xitem.rs: numeric operation dispatch")],
  ["query results, overflow checks"])

p("C19", "Comparisons are consistent for every pair of values",
  "Value comparisons (eq, ne, lt, le, gt, ge) of two numbers compare numerically across numeric types, two strings by code point, two booleans with false before true; an empty operand gives an empty result, incomparable types and longer sequences an error, and NaN is unequal to and unordered with everything. General comparisons (=, !=, <, <=, >, >=) are true exactly if some pair of items, one from each operand, satisfies the corresponding value comparison.",
  ["inputs"], "all pairs of values and sequences of numbers, strings and booleans",
  "Tests sample a few pairs; NaN, mixed numeric types, empty and longer sequences multiply out.",
  [XS, XI, OP], [("value comparison", "src/xpath_impl/xsequence.rs: value_compare_*"), ("general comparison", "src/xpath_impl/xsequence.rs: general_compare_*")],
  ["query results"])

p("C20", "Truth values, logic and conditionals follow the effective boolean value",
  "The effective boolean value of an empty sequence, false, an empty string, zero or NaN is false; of a sequence starting with a node, true, a non-empty string or any other number it is true; other sequences are an error. and, or, not(), boolean(), if-then-else and boolean predicates all use it; 'and' and 'or' do not depend on a right operand that cannot change the answer, and only the selected branch of a conditional is evaluated.",
  ["inputs"], "all operand values and nestings of logical operators and conditionals, including operands that fail",
  "Tests sample a few constants and never a failing operand on the side that must not be evaluated.",
  [XS, EV], [("effective boolean value", "src/xpath_impl/xsequence.rs: effective_boolean_value"), ("and/or/if", "src/xpath_impl/eval.rs: OperatorAnd, OperatorOr, IfExpr")],
  ["query results"])

p("C21", "Sequence functions and operators treat positions and items exactly",
  "The comma operator, 'to', head, tail, insert-before, remove, reverse, subsequence, index-of, empty, exists, zero-or-one, one-or-more and exactly-one give exactly the items their definition selects, in the defined order, for any positions (zero, negative, fractional, beyond the end, infinite) and any mixture of nodes and atomic values. Sequences never nest, and the cardinality functions fail exactly when the cardinality is wrong.",
  ["inputs"], "all sequences and positions, and compositions of the functions",
  "Tests use one or two in-range positions per function.",
  [FU, OP, XS], [("sequence functions", "src/xpath_impl/func.rs: 14.1, 14.2 and 14.3 functions"), ("range", "src/xpath_impl/oper.rs: op_to")],
  ["query results"])

p("C22", "Aggregates give the count, sum, average, minimum and maximum",
  "count gives the number of items; sum and avg of numbers give their sum and mean (an empty sum is 0 or the given default, an empty avg is empty, an integer overflow is an error); min and max return an item of the sequence that no other item is below or above, and are empty for an empty sequence and an error for incomparable items. Aggregates over nodes use the nodes' numeric values for sum and avg.",
  ["inputs"], "all sequences of numbers, strings and booleans, of every length and type mixture",
  "Tests sum a few small constants.",
  [FU], [("aggregates", "src/xpath_impl/func.rs: fn_count, fn_sum, fn_avg, fn_max, fn_min")],
  ["query results"])

p("C23", "String functions work on characters and obey their definitions",
  "concat, '||', string-join, substring, string-length, upper-case, lower-case, translate, contains, starts-with, ends-with, substring-before, substring-after, compare, codepoint-equal, codepoints-to-string and string-to-codepoints give exactly the result of their definition on the characters (Unicode code points, never bytes) of any strings, including empty ones and those outside ASCII or the basic plane. substring selects the characters whose position p satisfies round(start) <= p < round(start)+round(length) for any finite, fractional or negative numbers; an empty argument counts as the empty string where the definition says so.",
  ["inputs"], "all strings (any script, empty, repeated patterns) and all numeric positions",
  "Tests use a few short ASCII or Japanese strings.",
  [FU], [("string functions", "src/xpath_impl/func.rs: section 5 functions")],
  ["query results"])

p("C24", "Numeric functions round and convert exactly",
  "abs, ceiling, floor and round give the nearest value in their direction (round takes halves up) and keep the argument's type, for every integer, decimal and double including negative, huge, infinite and NaN values; an empty argument gives an empty result and abs of the smallest integer an error. number() gives the numeric value of a string, boolean, number or node, or NaN if there is none.",
  ["inputs"], "all numeric arguments and strings",
  "Tests sample one or two values per function.",
  [FU, XI], [("numeric functions", "src/xpath_impl/func.rs: fn_abs, fn_ceiling, fn_floor, fn_round, fn_number")],
  ["query results"])

p("C25", "Variable bindings: for, let, some, every and their scopes",
  "'for' evaluates its body once per combination of bindings, in nested order, and concatenates the results; 'let' binds a whole sequence; 'some' ('every') is true exactly if the condition holds for at least one (for every) combination. A variable is visible only in the clauses after it and in the body, the innermost binding of a name wins and the outer one is visible again afterwards, and a reference to an unbound variable is an error.",
  ["inputs"], "all nestings of binding expressions with shadowed names, multiple clauses and early termination",
  "Tests nest at most twice with distinct names.",
  [EV], [("binding expressions", "src/xpath_impl/eval.rs: ForExpr, LetExpr, SomeExpr, EveryExpr"), ("variable stack", "src/xpath_impl/eval.rs: EvalEnv set_var, remove_var, get_var")],
  ["query results"], [("variable stack", "bindings in effect")])

p("C26", "Function values: inline, named, partial, arrow and higher-order calls",
  "A dynamic call of an inline function, a named function reference or a partially applied function gives the same result as the direct call with the arguments in the same places; the arrow operator passes its left operand as first argument; for-each concatenates the results of applying the function to each item and filter keeps the items for which it gives true. A call with the wrong number of arguments, of an unknown function, or of something that is not a function is an error, and parameters are visible only inside the function body.",
  ["inputs", "programs"], "all function values over all callable built-ins and inline bodies, with any placeholder positions and arities",
  "Tests call a few fixed functions through each form.",
  [EV, FU], [("function calls", "src/xpath_impl/eval.rs: call_function, evaluate_function"), ("function tables", "src/xpath_impl/func.rs: signature tables"), ("for-each, filter", "src/xpath_impl/func.rs: fn_for_each, fn_filter")],
  ["query results"])

p("C27", "Maps and arrays: construction, lookup and their functions",
  "A map or array built from entries returns, for each key (an atomic value, the same when kind and value agree) or 1-based index, exactly the value given, through function call, '?' lookup and the map:/array: functions alike. Sizes, key lists, containment, wildcards (values in order) and array flattening agree with the entries; a missing map key gives () and a call of an array out of bounds is an error. A key that is not one atomic value, and a duplicate key, is an error.",
  ["inputs"], "all nested maps and arrays with distinct string, number and boolean keys",
  "Tests use flat maps with two or three keys.",
  [EV, XI, FU], [("construction", "src/xpath_impl/eval.rs: convert_xnode_to_map_array"), ("access", "src/xpath_impl/xitem.rs: map_get, array_get, array_flatten"), ("functions", "src/xpath_impl/func.rs: map:* and array:*")],
  ["query results"])

p("C28", "Type tests and casts agree with the type hierarchy",
  "'instance of' is true exactly if every item matches the item type and the number of items matches the occurrence indicator, where integer is derived from decimal and node kinds match their own tests; 'castable as' is true exactly if 'cast as' succeeds. Casting between strings, booleans and numbers gives the value the target type assigns to the source (numbers to integer truncate toward zero, values outside the target's range are errors), a cast to string and back gives the same value, and an empty operand is accepted only with '?'.",
  ["inputs"], "all values, item types, occurrence indicators and cast targets",
  "Tests sample a small table; the product of values, types and indicators is large.",
  [EV, XI], [("instance of", "src/xpath_impl/eval.rs: match_sequence_type"), ("casts", "src/xpath_impl/xitem.rs: cast_as, castable_as")],
  ["query results"])

p("C29", "Expression syntax: precedence, associativity, white space and comments",
  "Every expression is read with the operator precedence and associativity of the XPath grammar: writing it with the fewest parentheses the grammar allows, with every sub-expression parenthesized, with arbitrary white space and (nested) comments between tokens, or with either kind of string quote (doubled quotes inside) gives the same result. Operator keywords may also be used as element names where a step is expected.",
  ["inputs", "programs"], "all expressions over all operators, rendered with minimal and full parentheses and random spacing",
  "Tests fix a few token sequences; precedence mistakes need particular operator pairs and contexts.",
  [PA, LE], [("operator table", "src/xpath_impl/parser.rs: parse_*_expr chain"), ("lexer", "src/xpath_impl/lexer.rs: tokenization, comments, literals")],
  ["results of equivalent renderings"])

p("C30", "Malformed expressions are rejected",
  "A string that is not an expression of the supported grammar (a missing operand, bracket, keyword, step, argument or closing quote, an extra token, an empty expression) is an error for every entry point, never a result, whether or not the malformed part would have been evaluated. An integer literal that cannot be represented is an error when it is evaluated.",
  ["inputs"], "all token sequences obtained by deleting, duplicating or truncating tokens of valid expressions so that no valid expression remains",
  "Tests reject a few fixed strings.",
  [PA, LE], [("syntax checks", "src/xpath_impl/parser.rs: error_if_nil and friends"), ("lexer", "src/xpath_impl/lexer.rs")],
  ["Err from every entry point"])

p("C31", "Evaluating any expression string never panics or hangs",
  "For every expression string, every document and every context node, evaluation through every entry point terminates with a result or an error: no panic, no arithmetic overflow, no unbounded memory or time for expressions of moderate nesting and range size in which no function calls itself. A returned result can always be rendered and indexed item by item.",
  ["inputs"], "all strings: random, token soup, mutated valid expressions, extreme numbers and positions",
  "Tests evaluate only sensible expressions; totality is a claim about all inputs.",
  [XP, EV, PA, LE, FU, OP, XI, XS], [("parser", "src/xpath_impl/parser.rs"), ("evaluator", "src/xpath_impl/eval.rs: evaluate_xnode"), ("functions", "src/xpath_impl/func.rs")],
  ["process outcome, result value, wall time"])

p("C32", "Results render their items faithfully",
  "A result's length, its items and its rendering as a string agree: the rendering of an empty result is '()', of one item that item's rendering, of several the items' renderings joined by ', ' in parentheses; every item below the length exists, and exactly the node items give a node. Renderings show type and value: integers in plain digits, decimals with a decimal point, doubles in scientific notation (or NaN, +Infinity, -Infinity), strings in double quotes, booleans as true or false, maps and arrays with their entries, and numeric renderings read back as the same number (where an integer literal of that size exists).",
  ["inputs"], "all results of all types and lengths",
  "Tests compare a few renderings with fixed strings.",
  [XP, XS, XI], [("sequence rendering", "src/xpath_impl/xsequence.rs: Display"), ("item rendering", "src/xpath_impl/xitem.rs: Display"), ("accessors", "src/xpath.rs: len, get_item, as_nodeptr")],
  ["Sequence::to_string, len, get_item, Item::to_string, as_nodeptr"])

p("C33", "Functions on nodes report the node's own data",
  "string() and data() of an element or document give the concatenation of its descendants' text in document order and of an attribute or text node its value, root() gives the topmost node of its tree, and lang() is true exactly if the nearest enclosing xml:lang equals the given language or is a sublanguage of it, ignoring case. Functions without an argument use the context item and give the same result as the call with '.' as argument (string-length() and normalize-space() with its string value); string values are unaffected by how the text was split into nodes or CDATA sections.",
  ["inputs"], "all nodes of all documents, with and without explicit argument",
  "Tests measure a few fixed nodes.",
  [FU, DOM], [("accessor functions", "src/xpath_impl/func.rs: fn_string, fn_data, fn_root, fn_lang"), ("string value", "src/xpath_impl/xitem.rs and eval: string_value")],
  ["query results"])

p("C34", "Trees and queries stay correct under repeated edit-and-query histories",
  "After any edit, every later query answers about the current tree: nodes that were deleted no longer appear, inserted and moved nodes appear at their new places with their subtrees, and positions, counts, axes and document order all reflect the current structure. Answers on the edited tree equal the answers on a freshly parsed document with the same content, and a visiting iteration visits exactly the nodes that were selected when it was started, whatever its visitor edits.",
  ["histories"], "all interleavings of edits and queries on one or several documents",
  "Tests edit, serialize and stop; they never query again after editing.",
  [DOM, EV], [("order invalidation", "src/dom.rs: clear_document_order"), ("evaluation", "src/xpath_impl/eval.rs")],
  ["query results after each edit, against a fresh parse"], [("order cell", "cached order number of a node")])

p("C35", "Function type tests follow the subtype rules",
  "A function value is an instance of function(*), of item() and of exactly those typed function tests with as many parameters as it has, whose parameter types are subtypes of its own and whose result type is a supertype of its own (undeclared types count as item()*; a named function has its standard signature, a partial application that of its open parameters). Subtyping between sequence types is the inclusion of item types and of occurrence indicators, applied through nested function, map and array types, and passing a function as an argument of a declared function type succeeds exactly if it is such an instance.",
  ["inputs", "programs"], "all inline functions, function references, partial applications and function tests over all item types and occurrence indicators, nested",
  "Tests sample a table of a few signatures; the product of types, indicators and parameter positions is unbounded.",
  [EV], [("function tests", "src/xpath_impl/eval.rs: match of TypedFunctionTest"), ("subtype rules", "src/xpath_impl/eval.rs: derives_from_*")],
  ["query results of 'instance of' and of calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
