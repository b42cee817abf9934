mod alloc;
mod rng;
mod names;
mod runner;
mod model;
mod cxml;
mod forest;
mod cdom;
mod ast;
mod refeval;
mod gen;
mod xbench;
mod cxpath;
mod chist;
mod csyntax;

use runner::*;
use std::path::PathBuf;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static PROPS: &[Prop] = &[
    Prop { id: "C01", cases: (300_000, 7_500_000), rule: "random document trees rendered with random lexical forms; distinct by document text, non-trivial if more than 3 nodes", run: cxml::c01, known: None, must: &["cdata", "squote", "empty-tag", "directive"] },
    Prop { id: "C02", cases: (160_000, 5_000_000), rule: "parsed or edited random trees; distinct by serialization, non-trivial if more than 3 nodes", run: cxml::c02, known: None, must: &["attribute_set", "node_serializations"] },
    Prop { id: "C03", cases: (300_000, 7_500_000), rule: "random documents read token by token; distinct by text, non-trivial if more than 3 events", run: cxml::c03, known: None, must: &["start", "end", "eof", "directive"] },
    Prop { id: "C04", cases: (600_000, 15_000_000), rule: "sequences of references and look-alikes in text, attributes, CDATA, comments, PIs; distinct by source", run: cxml::c04, known: None, must: &["decimal", "hex", "escaped_ref"] },
    Prop { id: "C05", cases: (600_000, 15_000_000), rule: "one structural damage to a random well-formed document; distinct by damaged text", run: cxml::c05, known: None, must: &["cut inside markup", "end tag dropped"] },
    Prop { id: "C06", cases: (300_000, 10_000_000), rule: "random, mutated, truncated, nested and repetitive strings; distinct by string, non-trivial if longer than 2 bytes", run: cxml::c06, known: None, must: &["accepted", "rejected", "huge"] },
    Prop { id: "C07", cases: (40_000, 1_000_000), rule: "states reached by random edit histories over several documents; distinct by history", run: cdom::c07, known: Some(cdom::c07_known), must: &["append", "replace", "delete", "attribute replaced", "parent dropped", "append across trees"] },
    Prop { id: "C08", cases: (60_000, 1_500_000), rule: "states reached by random edit histories over several documents; distinct by history", run: cdom::c08, known: None, must: &["append", "replace", "delete", "attribute replaced", "insert next", "insert a copy of an ancestor", "append under itself"] },
    Prop { id: "C09", cases: (3_000, 200_000), rule: "pairs of nodes compared in trees reached by edit histories; distinct by expression, non-trivial if the nodes differ", run: cdom::c09, known: None, must: &["is", "<<", "shuffled sets", "parent dropped", "append"] },
    Prop { id: "C10", cases: (20_000, 1_000_000), rule: "documents with nested namespace declarations, every element and attribute; non-trivial once a bound namespace occurred", run: cxml::c10, known: None, must: &["bound", "unbound"] },
    Prop { id: "C11", cases: (200_000, 5_000_000), rule: "every node of random documents printed; distinct by printed text, non-trivial if it has children", run: cxml::c11, known: None, must: &["element", "doc"] },
    Prop { id: "C12", cases: (12_000, 2_000_000), rule: "histories of queries of every kind on one document, each through every entry point and on an equal document; distinct by expression text", run: chist::c12, known: None, must: &["first node", "node set", "visit", "all entry points fail", "tree unchanged", "earlier result unchanged", "equal document", "the same in other words", "an expression like an earlier one"] },
    Prop { id: "C13", cases: (20_000, 3_000_000), rule: "histories of parsing, editing, querying, keeping and dropping, and single handles into big documents; distinct by history", run: chist::c13, known: None, must: &["balanced", "single handle", "parse failed", "query failed", "append", "replace"] },
    Prop { id: "C14", cases: (20_000, 3_000_000), rule: "axis steps with every axis and many node tests from every node of random documents, in paths and both abbreviated and long; distinct by expression text", run: cxpath::c14, known: None, must: &["axis child", "axis descendant", "axis descendant-or-self", "axis parent", "axis ancestor", "axis ancestor-or-self", "axis following", "axis preceding", "axis following-sibling", "axis preceding-sibling", "axis self", "axis attribute", "step on an atomic item", "abbreviated and long form", "result: several items", "detached tree"] },
    Prop { id: "C15", cases: (16_000, 2_000_000), rule: "paths of several steps over shuffled and duplicated node sequences, atomic last steps, simple map; distinct by expression text", run: cxpath::c15, known: None, must: &["op /", "op //", "op !", "result: several items", "result: error"] },
    Prop { id: "C16", cases: (16_000, 2_500_000), rule: "steps and parenthesized sequences with one to three predicates, nested predicates, reverse axes; distinct by expression text", run: cxpath::c16, known: None, must: &["axis preceding with predicate", "axis ancestor with predicate", "axis child with predicate", "filter", "fn last", "fn position", "result: several items"] },
    Prop { id: "C17", cases: (10_000, 1_250_000), rule: "nested unions, intersections and differences over shuffled, duplicated and overlapping node sets; distinct by expression text", run: cxpath::c17, known: None, must: &["op |", "op intersect", "op except", "result: several items", "result: error"] },
    Prop { id: "C18", cases: (16_000, 2_000_000), rule: "arithmetic over boundary and random integers, decimals and doubles, one to three operators; distinct by expression text", run: cxpath::c18, known: None, must: &["op +", "op -", "op *", "op div", "op idiv", "op mod", "unary minus", "result: error"] },
    Prop { id: "C19", cases: (16_000, 2_500_000), rule: "value and general comparisons over pairs of values and pairs of sequences of every kind; distinct by expression text", run: cxpath::c19, known: None, must: &["op eq", "op ne", "op lt", "op le", "op gt", "op ge", "op =", "op !=", "op <", "op <=", "op >", "op >=", "result: error"] },
    Prop { id: "C20", cases: (12_000, 1_750_000), rule: "conditions of every kind in boolean(), not(), if, and, or, predicates and quantifiers, with failing operands; distinct by expression text", run: cxpath::c20, known: None, must: &["if", "op and", "op or", "failing branch", "failing right operand", "fn boolean", "fn not", "result: error"] },
    Prop { id: "C21", cases: (12_000, 1_500_000), rule: "compositions of sequence functions with positions and lengths of every size; distinct by expression text", run: cxpath::c21, known: None, must: &["fn subsequence", "fn remove", "fn insert-before", "fn index-of", "op to", "fn reverse", "result: several items"] },
    Prop { id: "C22", cases: (16_000, 2_500_000), rule: "aggregates over sequences of integers, decimals, doubles, strings and nodes; distinct by expression text", run: cxpath::c22, known: None, must: &["fn sum", "fn avg", "fn min", "fn max", "fn count", "result: error"] },
    Prop { id: "C23", cases: (16_000, 2_250_000), rule: "string functions over strings with characters of every plane, positions of every size; distinct by expression text", run: cxpath::c23, known: Some(cxpath::c23_known), must: &["fn substring", "fn translate", "fn string-length", "fn concat", "fn string-join", "fn codepoints-to-string", "fn string-to-codepoints", "fn compare", "fn substring-before", "fn substring-after"] },
    Prop { id: "C24", cases: (20_000, 3_000_000), rule: "abs, ceiling, floor, round and number over halves, boundaries and random doubles; distinct by expression text", run: cxpath::c24, known: None, must: &["fn abs", "fn ceiling", "fn floor", "fn round", "fn number"] },
    Prop { id: "C25", cases: (5_000, 600_000), rule: "nested for, let, some, every and inline functions over few names so that they hide each other; distinct by expression text", run: cxpath::c25, known: None, must: &["for", "let", "some", "every", "after the scope", "result: error"] },
    Prop { id: "C26", cases: (8_000, 1_000_000), rule: "the same call written as static, dynamic, arrow, partial, inline and higher-order call; closures; wrong calls; distinct by expression text", run: cxpath::c26, known: None, must: &["call forms compared", "arrow", "inline function", "named function reference", "bad call", "typed parameter"] },
    Prop { id: "C27", cases: (6_000, 750_000), rule: "random nested maps and arrays with every lookup form; distinct by expression text", run: cxpath::c27, known: None, must: &["map constructor", "array constructor", "lookup", "unary lookup", "fn map:get", "fn array:get", "fn array:flatten", "fn map:contains", "fn map:keys"] },
    Prop { id: "C28", cases: (14_000, 2_000_000), rule: "casts, castable and instance of over values and types of every kind; distinct by expression text", run: cxpath::c28, known: None, must: &["cast as", "castable as", "instance of", "result: error"] },
    Prop { id: "C29", cases: (4_000, 1_250_000), rule: "expressions rendered with few, all and some parentheses, few, single and wild white space with comments, both quotes; distinct by text", run: csyntax::c29, known: None, must: &["fewest parentheses", "all parentheses", "fewest spaces", "wild white space", "with comments", "doubled quote", "keyword among the names", "renderings compared", "result: several items"] },
    Prop { id: "C30", cases: (4_000, 500_000), rule: "valid expressions with one damage and fixed malformed ones, alone and where they are not evaluated, through every entry point; distinct by text", run: csyntax::c30, known: None, must: &["template", "template, not evaluated", "undamaged, not evaluated", "bracket deleted", "bracket inserted", "number appended", "cut off", "keyword dropped", "'::' dropped", "operator doubled", "stray character", "closing quote dropped", "bad number"] },
    Prop { id: "C31", cases: (16_000, 2_000_000), rule: "random strings, token soup, disturbed expressions, extreme numbers and arities, long chains, nesting; distinct by text", run: csyntax::c31, known: None, must: &["token soup", "disturbed tokens", "disturbed characters", "extreme numbers", "extreme arities", "long chain", "nesting", "characters", "lexical soup", "result", "error", "node of a result used"] },
    Prop { id: "C32", cases: (8_000, 1_000_000), rule: "results of random expressions rendered as a whole and item by item, numbers read back; distinct by rendering", run: cxpath::c32, known: None, must: &["empty rendering", "single rendering", "composed rendering", "number read back", "node item"] },
    Prop { id: "C33", cases: (14_000, 2_000_000), rule: "functions about nodes on every kind of node, with and without argument, and on the same text cut differently; distinct by expression text", run: cxpath::c33, known: None, must: &["fn lang", "fn string", "fn name", "fn root", "fn data", "no argument and '.'", "text cut differently"] },
    Prop { id: "C34", cases: (6_000, 750_000), rule: "queries interleaved with edits, against the reference and a fresh parse of the serialization; distinct by expression text", run: chist::c34, known: None, must: &["compared with a fresh parse", "append", "replace", "delete", "result: several items"] },
    Prop { id: "C35", cases: (10_000, 1_250_000), rule: "inline functions with random signatures, references to named functions and calls with open arguments, tested against equal, near and unrelated function types; distinct by expression text", run: cxpath::c35, known: None, must: &["instance of", "call with open arguments", "reference to a function", "function as an argument of a declared type", "result: error"] },
];

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or("/verif".into()));
            std::process::exit(check(prop(&a[2]), tier, seed, &verif));
        }
        Some("work") => {
            let u = |i: usize| a[i].parse::<u64>().unwrap();
            work(prop(&a[2]), u(3), u(4), u(5), u(6), u(7), u(8), &a[9], a[10] == "thorough");
        }
        Some("replay") => {
            let p = prop(&a[2]);
            let (s, c): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let thorough = a.get(5).map(|s| s == "thorough").unwrap_or(false);
            install_panic_hook();
            let code = on_big_stack(move || {
                let mut cx = Cx::new(None, thorough);
                cx.verbose = true;
                match run_case(p, &mut cx, s, c) { Ok(()) => { println!("held"); 0 } Err(v) => { println!("VIOLATION: {}", v.what); 1 } }
            });
            std::process::exit(code);
        }
        Some("list") => for p in PROPS { println!("{}", p.id) },
        _ => { eprintln!("usage: vh check ID quick|thorough | replay ID SEED CASE | list"); std::process::exit(2) }
    }
}
