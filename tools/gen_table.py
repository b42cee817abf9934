#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
# bugs that the checks missed when they were first run, and what was changed then
MISSED = {
    'c14-name-middot': 'missed; caught since names of edge characters occur',
    'c31-codepoint-index': 'missed; caught since long strings occur',
    'c21-tail-long': 'missed; caught since sequences up to 1024 items occur',
    'c33-name-pi': 'missed; caught since dotted targets occur',
    'c06-quadratic': 'missed; caught since inputs of a megabyte occur',
    'c12-cached': 'missed; caught since look-alike queries follow each other',
    'c09-order-wrap': 'missed; caught since documents of thousands of nodes occur',
    'c27-map-many': 'missed; caught since maps and arrays of dozens of members occur',
    'c29-comment-depth': 'missed; caught since comments are nested a dozen deep',
    'c05-long-name': 'missed; caught since long names that differ at the end occur',
    'c22-sum-order': 'missed; caught since sequences of dozens of items occur',
    'c13-leak-attrs': 'missed; caught since histories delete attributes of elements with many',
    'c27-flatten-member': 'missed; caught since members of several items with maps and arrays among them occur',
    'c28-nil-name': 'missed; caught since every node of a document is tested against one type',
    'c28-castable-empty': 'missed; caught since types are tested on sequences of over a hundred items',
    'c14-pi-prefix': 'missed; caught since targets that are prefixes of one another occur',
    'c16-last-left': 'missed; caught since predicates use position() and last() after an inner predicate',
    'c29-comment-open': 'missed; caught since comments are drawn at random',
    'c29-except-prec': 'missed; caught since pairs of operators are grouped both ways, with different results',
    'c31-range-max': 'missed; caught since ranges end at the last integer',
    'c05-unclosed-pi': 'missed; caught since markup after the document element is cut as well',
    'c29-name-range': 'missed; caught since names are drawn from all name characters',
    'c03-text-chunk': 'missed; caught since texts of over 64 KiB occur',
    'c25-set-var-reuse': 'missed; caught since one of a hundred variables is bound again',
    'c06-attr-quadratic': 'missed; caught since elements of tens of thousands of attributes occur',
    'c09-order-narrow': 'missed; caught since documents of over 65536 nodes occur',
    'c25-for-error-var': 'missed; caught since loop bodies are empty for some items and the variable is used afterwards',
    'c26-concat-args': 'missed; caught since calls of up to forty arguments occur',
    'c14-sibling-twin': 'missed; caught since documents of hundreds of siblings occur',
    'c01-attr-many': 'missed; caught since elements of hundreds of attributes occur',
    'c19-general-late': 'missed; caught since sequences of hundreds of items are compared',
    'c21-to-cap': 'missed; caught since sequences of thousands of integers occur',
    'c23-contains-far': 'missed; caught since strings of thousands of characters are searched',
    'c27-get-half': 'missed; caught since maps of hundreds of entries occur',
    'c05-end-tag-prefix': 'missed; caught since end tags get prefixes of many kinds',
    'c30-nbsp': 'missed (as a case of C29); caught since other white space characters are among the stray ones',
    'c28-map-keys-few': 'missed; caught since one of many entries does not fit the type',
    'c27-index-wrap': 'missed; caught since numbers occur that are alike in fewer bits',
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | first |', '|---|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), MISSED.get(i, 'caught')))
p = here + '/DESIGN.md'
s = open(p).read()
a = s.index('<!-- table -->') + len('<!-- table -->')
b = s.index('<!-- end -->')
open(p, 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
