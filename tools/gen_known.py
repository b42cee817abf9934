#!/usr/bin/env python3
"""Writes /verif/known_findings.txt from the recorded findings and the fix commits in /repo."""
import os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = [
 "known: property=C23 normalize-space-joins-words: normalize-space(' abc  def ') gives \"abcdef\" instead of \"abc def\" (the existing test test_normalize_space pins this result)",
 "known: property=C07 append-attribute: b.append_child(&y) with an attribute node y makes y a child of b and leaves it among its element's attributes: it is listed by two parents (what the call should do is undefined; the documentation only shows elements)",
 "known: property=C07 append-document: b.append_child(&e) with a document root e makes e a child of b, but e.parent() is None (the documentation says not to pass it, but its content is serialized in place, which callers may rely on)",
]
# subject of the fix commit -> properties it was found under, what failed
FIX = [
 ("report an unterminated start tag", "C06", "new_document(\"<a\") did not return"),
 ("reject illegal characters and missing names", "C05", "'<a <b/>' and '<>' were accepted"),
 ("reject malformed end tags", "C05", "'<a></>' and '<a></a b>' were accepted"),
 ("reject documents whose elements are not closed", "C05", "'<a><b></b>' was accepted"),
 ("decode entity and character references only once", "C04", "'&amp;lt;' became '<'"),
 ("treat a parent that no longer exists", "C07", "parent() of a node of a dropped document panicked"),
 ("copy the whole subtree on insert", "C08", "inserting an element inserted it without its descendants"),
 ("a node deleted from its parent", "C07", "delete_child left the parent link of the removed node"),
 ("make append_child() move the node", "C07", "appending a node that has a parent left it listed by both"),
 ("recompute document order in a subtree after it is detached", "C09", "'<<' in a detached subtree used the order of the old tree"),
 ("the default namespace does not apply", "C10", "'<a xmlns=\"u\" b=\"1\"/>': b was reported in namespace u"),
 ("an empty XPath expression", "C30", "eval_xpath(\"\") panicked"),
 ("an incomplete XPath expression", "C30", "eval_xpath(\"1 +\") panicked"),
 ("require the keywords then", "C30", "'if (1) 2 else 3' was accepted"),
 ("accept repeated unary operators", "C29", "'--1' was a syntax error"),
 ("decode text with many unterminated references", "C06", "1 MB of '&#' without any ';' took 30 s to parse"),
 ("partial calls with the arrow operator", "C26", "'a' => concat(?, 'b') was an internal error when evaluated"),
 ("evaluate the given arguments of a partial call", "C26", "//a ! $f('x') with $f := concat(?, name()) took the name of the node where it is called"),
 ("maps and arrays as the function of for-each and filter", "C26", "for-each((1, 2), [10, 20]) was an error"),
 ("accept predicates after the abbreviated step", "C16", "'..[1]' was a syntax error"),
 ("integer overflow is a dynamic error", "C18", "9223372036854775807 + 1 panicked (debug) or wrapped (release)"),
 ("reject numeric literals that are malformed", "C30", "99999999999999999999 panicked, '1e' was accepted"),
 ("idiv truncates the quotient", "C18", "'7.5 idiv 2.5' truncated its operands first"),
 ("a double dividend promotes", "C18", "'1e0 div 0' was an error instead of INF"),
 ("a value that is not a number can't be cast", "C28", "'xyz' cast as xs:integer gave a number"),
 ("codepoints-to-string rejects", "C23", "codepoints-to-string(-1) panicked"),
 ("no overflow in substring", "C21", "subsequence((1,2), 9223372036854775807) panicked"),
 ("unbind the variable when some/every", "C25", "'some $x in (1,2) satisfies $x = 1, $x' saw $x after its scope"),
 ("a wrong number of arguments in a dynamic call", "C26", "'(function($x) {1})()' panicked"),
 ("allow a dynamic call of a named function", "C26", "'let $f := abs#1 return $f(-1)' failed"),
 ("a predicate that is not an integer", "C16", "'(1,2)['a']' was empty"),
 ("NaN and empty operands", "C19", "'number('x') >= 1' was true"),
 ("path expressions are left associative", "C15", "'//a/b/string(.)' gave its items out of order"),
 ("position() and last() follow", "C15", "'(//a)/position()' gave the wrong positions"),
 ("a map or array as a map key", "C27", "map{[1]:1} panicked in a lookup"),
 ("translate() maps a character", "C23", "translate('a','aa','xy') gave 'y'"),
 ("lang() uses the nearest", "C33", "lang('en') looked at the outermost xml:lang"),
 ("intersect and except return", "C17", "'(//b, //a) except ()' was not in document order"),
 ("index-of() treats values", "C21", "index-of((1, 'a'), 'a') was an error"),
 ("arithmetic with an empty operand", "C18", "'() + 1' was an error"),
 ("is, <<, >> and to with an empty operand", "C09", "'() is .' was an error; '1 to ()' likewise (C21)"),
 ("a non-node operand of union", "C17", "'1 | 2' was accepted"),
 ("a reference to an unbound variable", "C25", "'$nosuch' gave ()"),
 ("an empty CDATA section makes no text node", "C02", "'<a><![CDATA[]]></a>' serialized as '<a></a>', and that, parsed again, as '<a/>'"),
 ("escape carriage returns", "C02", "'<a>&#13;</a>' lost its carriage return in a round trip"),
 ("a replaced or deleted attribute node", "C07", "a deleted attribute node still reported its element as parent"),
 ("the following and preceding axes", "C14", "'@x/following::*' left out the element's own children"),
 ("comments and processing instructions are not", "C33", "string(<a>x<!--y--></a>) was 'xy'"),
 ("the string value of a processing instruction", "C33", "string() of a processing instruction was empty"),
 ("function values keep the variables", "C26", "a closure returned out of the scope of its variable failed"),
 ("a function value is an item", "C26", "passing a function for $f as item() was an error"),
 ("document order stays right", "C09", "after dropping the root, order numbers of two subtrees clashed"),
 ("name test *:local", "C14", "'*:b' did not match 'p:b'"),
 ("fn:round is exact", "C24", "round(0.49999999999999994) was 1"),
 ("substring and subsequence accept", "C23", "substring('abc', 0, 2) and NaN positions"),
 ("abs, ceiling, floor, round and number", "C24", "abs('x') gave a number; abs(node) was an error"),
 ("decimal arithmetic that overflows", "C18", "a decimal product out of range gave inf"),
 ("xs:decimal has no negative zero", "C18", "'0.0 * -1' rendered as -0"),
 ("function type tests compare names", "C28", "function(element(a)) matched function(element(b))"),
 ("tell operator words from names", "C29", "'div div div' and '* * *' were misread"),
 ("an axis step whose context item", "C14", "'(1)/a' gave () instead of an error"),
 ("only elements and attributes have a namespace URI", "C10", "namespace-uri() of text was its element's default namespace"),
 ("a path step that yields nodes mixed", "C15", "'(//a)/(., 1)' was accepted"),
 ("string-length() and normalize-space() without", "C33", "'//a/string-length()' counted the rendering of the node"),
 ("references and arrow calls to unknown", "C30", "'nosuch#1' and '1 => nosuch()' were accepted"),
 ("a missing type in a function", "C30", "'1 instance of function(*' panicked"),
 ("white space around the colon", "C29", "'map{ a : 1 }' was read as a name test"),
 ("map keys are compared", "C27", "map{1:'a', '1':'b'}(1): keys of different kinds were mixed up"),
 ("calling a map with an absent key", "C27", "map{1:2}(3) was an error"),
 ("the key expression of a postfix lookup", "C27", "'$m?(.)' evaluated '.' on the map"),
 ("signatures of normalize-space", "C35", "'one-or-more#1 instance of function(item()) as item()+' was false"),
 ("concat with any number of arguments has", "C35", "'concat#3 instance of function(string, string, string) as string' was false"),
 ("casts of strings accept exactly the lexical", "C28", "' true ' cast as xs:boolean was an error, 'abc' cast as xs:double gave NaN, '1e5' cast as xs:decimal gave 100000.0"),
 ("normalize-space() splits at XML", "C23", "normalize-space() dropped U+00A0"),
 ("':*' and '*:' are wildcards only", "C29", "map{'a':*} was a syntax error"),
    ("a numeric literal has at most one exponent", "C30", "'1.5e3e4' was accepted as a number"),
 ("element(n, type) in a declared type", "C35", "'function($x as element(b, xs:anyType?)) as xs:integer {1} instance of function(element(b, xs:untyped)) as xs:integer' was false"),
 ("attribute(n) without an axis", "C14", "'//attribute(id)' selected nothing: the default axis of an attribute test is the attribute axis"),
 ("angle brackets in literals, comments and PIs of a DOCTYPE", "C01", "a document type declaration with '>' or '<' in a literal, a comment or a processing instruction ended too early or too late"),
 ("a carriage return alone", "C01", "two lines divided by a carriage return was read as one line"),
 ("a partially applied function has the signature", "C35", "'abs(?) instance of function(numeric?) as numeric?' was false"),
 ("type tests of concat with a huge arity", "C31", "'concat#100000000 instance of function(item()) as item()' built a signature of 100000000 parameters and aborted"),
]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
fixes = [(h, s) for h, s in log if s.startswith("fix: ")]
out = ["# Genuine defects of amxml found by the checks.", "# known: recorded, still failing on the fixed input named by its key. fixed: repaired; suppresses nothing."]
out += KNOWN
used = set()
for pre, prop, what in FIX:
    m = [h for h, s in fixes if s[5:].startswith(pre)]
    assert len(m) == 1, (pre, m)
    used.add(m[0])
    out.append(f"fixed: property={prop} {m[0]} {what}")
missing = [s for h, s in fixes if h not in used]
assert not missing, missing
open(os.path.join(HERE, "..", "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(FIX), "fixed,", len(KNOWN), "known")
