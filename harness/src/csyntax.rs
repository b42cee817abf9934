//! Syntax: equivalent renderings (C29), malformed expressions (C30), and any
//! string at all (C31).
use crate::ast::*;
use crate::gen::*;
use crate::model::{wild_char, Doc};
use crate::rng::Rng;
use crate::runner::{violation, Cx, Outcome};
use crate::refeval::{Er, Ref};
use crate::xbench::*;
use amxml::dom::{new_document, NodePtr};

// ---------------------------------------------------------------------
// C29

/// Trees of operators over small operands, of every shape.
fn chain(g: &mut G, t: T, d: usize) -> E {
    if d == 0 || g.ch(1, 8) {
        return match t {
            T::Bool => match g.r.below(4) { 0 => call("true", vec![]), 1 => call("false", vec![]), 2 => int(g.r.range(0, 1)), _ => { let x = int(g.r.range(0, 3)); b(Op::GEq, x, int(2)) } },
            T::Nodes => if g.ch(1, 2) { g.astep(0, 0) } else { let p = g.path(0); if g.ch(1, 4) { b(Op::DSlash, E::Root, step(Axis::Child, Test::Star)) } else { p } },
            T::Str => g.str_lit(),
            T::Ints => { let (x, y) = (g.r.range(0, 4), g.r.range(0, 6)); b(Op::To, int(x), int(y)) }
            _ => match g.r.below(8) { 0 => g.dec_lit(), 1 => call("count", vec![g.astep(0, 0)]), 2 => E::Dbl("2e0".into()), _ => int(g.r.range(0, 7)) },
        };
    }
    let d = d - 1;
    let any = |g: &mut G, d: usize| { let t = *g.r.pick(&[T::Int, T::Int, T::Bool, T::Nodes, T::Str, T::Ints]); chain(g, t, d) };
    match t {
        T::Bool => match g.r.below(10) {
            0 | 1 => { let (x, y) = (chain(g, T::Bool, d), chain(g, T::Bool, d)); b(Op::And, x, y) }
            2 | 3 => { let (x, y) = (chain(g, T::Bool, d), chain(g, T::Bool, d)); b(Op::Or, x, y) }
            4 => { let (x, y) = (chain(g, T::Int, d), chain(g, T::Int, d)); b(*g.r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]), x, y) }
            5 => { let (x, y) = (chain(g, T::Int, d), chain(g, T::Ints, d)); b(*g.r.pick(&[Op::GEq, Op::GNe, Op::GLt, Op::GLe, Op::GGt, Op::GGe]), x, y) }
            6 => { let (x, y) = (chain(g, T::Str, d), chain(g, T::Str, d)); b(*g.r.pick(&[Op::Eq, Op::GEq, Op::Lt, Op::GGt]), x, y) }
            7 => { let x = any(g, d); let t = g.ty(1); E::Inst(Box::new(x), t) }
            8 => { let x = any(g, d); let o = g.ch(1, 3); E::Castable(Box::new(x), *g.r.pick(&[Atom::Integer, Atom::Decimal, Atom::Double, Atom::Str, Atom::Boolean]), o) }
            _ => { let (x, y) = (chain(g, T::Nodes, d), chain(g, T::Nodes, d)); let one = |e: E| filter(e, int(1)); b(*g.r.pick(&[Op::Is, Op::Before, Op::After]), one(x), one(y)) }
        },
        T::Nodes => match g.r.below(9) {
            0 | 1 => { let (x, y) = (chain(g, t, d), chain(g, t, d)); b(*g.r.pick(&[Op::Union, Op::Intersect, Op::Except]), x, y) }
            2 => { let (x, y) = (chain(g, t, d), chain(g, t, d)); b(Op::Except, x, y) }
            3 | 4 => { let x = chain(g, t, d); let y = g.astep(1, 0); b(*g.r.pick(&[Op::Slash, Op::DSlash]), x, y) }
            5 => { let x = chain(g, t, d); let y = g.within(Foc::Node, |g| chain(g, t, d)); b(Op::Bang, x, y) }
            6 => { let x = chain(g, t, d); let p = g.within(Foc::Node, |g| chain(g, T::Bool, d)); filter(x, p) }
            7 => { let x = chain(g, T::Bool, d); let (y, z) = (chain(g, t, d), chain(g, t, d)); E::If(Box::new(x), Box::new(y), Box::new(z)) }
            _ => chain(g, t, d),
        },
        T::Str => match g.r.below(5) {
            0 | 1 => { let x = chain(g, T::Int, d); let y = chain(g, T::Str, d); b(Op::Concat, x, y) }
            2 => { let x = chain(g, T::Int, d); E::Cast(Box::new(x), Atom::Str, false) }
            3 => { let x = chain(g, T::Str, d); let y = chain(g, T::Str, 0); E::Arrow(Box::new(x), Box::new(Callee::Name("concat".into())), vec![Some(y)]) }
            _ => { let x = chain(g, T::Bool, d); b(Op::Concat, x, E::Str("|".into())) }
        },
        T::Ints => match g.r.below(6) {
            0 => { let (x, y) = (chain(g, T::Int, d), chain(g, T::Int, 0)); b(Op::To, b(Op::Mod, x, int(5)), y) }
            1 => { let x = chain(g, t, d); let y = g.within(Foc::Int, |g| { let c = chain(g, T::Int, d); b(*g.r.pick(&[Op::Add, Op::Mul, Op::Sub]), E::Ctx, c) }); b(Op::Bang, x, y) }
            2 => { let (x, y) = (chain(g, t, d), chain(g, T::Int, d)); E::Seq(vec![x, y]) }
            3 => { let x = chain(g, t, d); let n = g.fresh(); let y = chain(g, T::Int, d); let v = E::Var(n.clone()); let body = if g.ch(1, 2) { b(Op::Sub, v, y) } else { E::Seq(vec![v, y]) }; E::For(vec![(n, x)], Box::new(body)) }
            4 => { let x = chain(g, t, d); let p = g.within(Foc::Int, |g| chain(g, T::Bool, d)); filter(x, p) }
            _ => { let x = chain(g, t, d); E::Arrow(Box::new(x), Box::new(Callee::Name("reverse".into())), vec![]) }
        },
        _ => match g.r.below(13) {
            0..=7 => { let (x, y) = (chain(g, T::Int, d), chain(g, T::Int, d)); b(*g.r.pick(&[Op::Add, Op::Sub, Op::Sub, Op::Mul, Op::Div, Op::Idiv, Op::Mod]), x, y) }
            8 => { let x = chain(g, T::Int, d); E::Neg(Box::new(x)) }
            9 => { let x = chain(g, T::Int, d); E::Plus(Box::new(x)) }
            10 => { let x = chain(g, T::Int, d); E::Cast(Box::new(x), *g.r.pick(&[Atom::Integer, Atom::Double, Atom::Decimal]), false) }
            11 => { let x = chain(g, T::Ints, d); E::Arrow(Box::new(x), Box::new(Callee::Name(g.r.s(&["count", "sum", "max"]))), vec![]) }
            _ => { let (x, y) = (chain(g, T::Int, d), chain(g, T::Int, d)); let c = chain(g, T::Bool, d); E::If(Box::new(c), Box::new(x), Box::new(y)) }
        },
    }
}

/// One operator around or between given operands.
#[derive(Clone)]
enum Around { Bin(Op), Neg, Cast(Atom), Castable(Atom), Inst(Ty), Arrow(&'static str), Pick(E), For, If }
fn around(g: &mut G) -> Around {
    const OPS: &[Op] = &[Op::Or, Op::And, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::GEq, Op::GNe, Op::GLt, Op::GLe, Op::GGt, Op::GGe, Op::Is, Op::Before, Op::After, Op::Concat, Op::To, Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Idiv, Op::Mod, Op::Union, Op::Intersect, Op::Except, Op::Bang, Op::Slash, Op::DSlash,
        Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Idiv, Op::Mod, Op::Union, Op::Union, Op::Intersect, Op::Intersect, Op::Except, Op::Except];
    match g.r.below(16) {
        0 => Around::Neg, 1 => Around::Cast(*g.r.pick(&[Atom::Integer, Atom::Str, Atom::Double, Atom::Boolean])), 2 => Around::Castable(*g.r.pick(&[Atom::Integer, Atom::Str, Atom::Double, Atom::Boolean])),
        3 => Around::Inst(g.ty(0)), 4 => Around::Arrow(*g.r.pick(&["string", "count", "exists", "reverse", "not", "name"])), 5 => { let k = g.r.range(1, 2); Around::Pick(int(k)) }
        6 => if g.ch(1, 2) { Around::For } else { Around::If },
        _ => Around::Bin(*g.r.pick(OPS)),
    }
}
impl Around {
    fn on(&self, l: E, r: E) -> E {
        match self {
            Around::Bin(o) => b(*o, l, r),
            Around::Neg => E::Neg(Box::new(l)), Around::Cast(t) => E::Cast(Box::new(l), *t, false), Around::Castable(t) => E::Castable(Box::new(l), *t, false),
            Around::Inst(t) => E::Inst(Box::new(l), t.clone()), Around::Arrow(n) => E::Arrow(Box::new(l), Box::new(Callee::Name(n.to_string())), vec![]), Around::Pick(p) => filter(l, p.clone()),
            Around::For => E::For(vec![("q".into(), int(7))], Box::new(l)), Around::If => E::If(Box::new(call("true", vec![])), Box::new(int(9)), Box::new(l)),
        }
    }
}
fn assoc_leaf(g: &mut G, nodes: bool) -> E {
    match g.r.below(if nodes { 6 } else { 10 }) {
        0 => b(Op::DSlash, E::Root, step(Axis::Child, Test::Star)), 1 => b(Op::DSlash, E::Root, step(Axis::Child, Test::Node)), 2 => b(Op::DSlash, E::Root, step(Axis::Attribute, Test::Star)),
        3 => { let n = g.elem_name(); b(Op::DSlash, E::Root, step(Axis::Child, Test::Name(n))) } 4 => step(*g.r.pick(&AXES), Test::Node), 5 => g.astep(0, 0),
        6 => call(*g.r.pick(&["true", "false"]), vec![]), 7 => g.str_lit(), _ => { let k = g.r.range(0, 6); int(k) }
    }
}
/// Two operators over three operands, in one of the two groupings, where the
/// other grouping has another result.
fn assoc(g: &mut G, d: &Doc, ctx: usize) -> E {
    let mut last = int(1);
    for _ in 0..40 {
        let (p, q) = (around(g), around(g));
        let set = |x: &Around| matches!(x, Around::Bin(Op::Union) | Around::Bin(Op::Intersect) | Around::Bin(Op::Except) | Around::Bin(Op::Is) | Around::Bin(Op::Before) | Around::Bin(Op::After) | Around::Bin(Op::Slash) | Around::Bin(Op::DSlash));
        let nodes = set(&p) || set(&q);
        let (lx, lz) = (set(&p) || nodes && g.ch(1, 2), set(&q) || nodes && g.ch(1, 2));
        let (x, y, z) = (assoc_leaf(g, lx), assoc_leaf(g, nodes), assoc_leaf(g, lz));
        let one = q.on(p.on(x.clone(), y.clone()), z.clone());
        let two = match (&p, &q) { (Around::Bin(_), _) => p.on(x, q.on(y, z)), _ => p.on(q.on(x, z), y) };
        if one == two { continue; }
        let show = |e: &E| { let mut rf = Ref::new(d); match rf.top(e, ctx) { Ok(v) => { let t = rf.show_seq(&v); Some(t.map(|t| format!("{} {}", v.len(), t))) } Err(Er::Error(_)) => Some(None), Err(_) => None } };
        let (s1, s2) = (show(&one), show(&two));
        last = if g.ch(1, 2) { one } else { two };
        match (s1, s2) { (Some(a), Some(c)) if a != c && (a.is_some() && c.is_some() || g.ch(1, 6)) => break, _ => {} }
    }
    last
}

fn has_words(s: &str) -> bool { NAMES_KW[1..].iter().any(|w| s.split(|c: char| !c.is_alphanumeric()).any(|x| x == *w)) }

/// Uses of a name N, and of another name M, with the result.
const NAMED: &[(&str, &str)] = &[
    ("let $N := 1 return $N", "1"), ("for $N in (1, 2) return $N", "(1, 2)"), ("some $N in (1, 2) satisfies $N = 2", "true"), ("every $N in (1, 2) satisfies $N = 2", "false"),
    ("function($N) { $N }(1)", "1"), ("map { 'N' : 1 }?N", "1"), ("let $N := 1, $M := 2 return ($N, $M)", "(1, 2)"), ("count(/N/@M)", "0"), ("/N//M", "()"), ("self::N/M", "()"),
    ("@N", "()"), ("N/M", "()"), ("*/N[M]", "()"), ("(1, 2)[$N]!0", "error"), ("$N", "error"), ("N()", "error"), ("attribute::N", "()"), ("count(self::node()/N)+1", "1"), ("let $N:=1 return -$N", "-1"), ("map{'N':1}('N')", "1"), ("processing-instruction(N)", "()"), ("descendant::element(N)", "()"), ("@attribute(N)", "()"),
];

/// A name of any characters the grammar allows, as variable, parameter, key and step.
fn any_name(cx: &mut Cx, r: &mut Rng, bn: &Bench) -> Outcome {
    let (n, m) = (crate::names::expr_name(r), crate::names::expr_name(r));
    if n == m || bn.text.contains(&n) || bn.text.contains(&m) || n.is_ascii() || m.is_ascii() { return Ok(()); }
    let (t, want) = *r.pick(NAMED);
    let q: String = t.chars().map(|c| match c { 'N' => n.clone(), 'M' => m.clone(), c => c.to_string() }).collect();
    let p = &bn.d.ptrs[pick_ctx(r, &bn.d)];
    cx.note(&format!("{}  ({:?}) on {}", q, q, bn.text));
    let p = if p.node_type() == amxml::dom::NodeType::Attribute { &bn.root } else { p };
    let got = real(p, &q).map(|s| s.to_string()).unwrap_or_else(|_| "error".to_string());
    cx.count("name of any characters");
    cx.eval(Some(&q));
    if got != want { return violation(format!("{} ({:?}) gives {}, expected {}\n  on {}", q, q, got, want, bn.text)); }
    Ok(())
}

pub fn c29(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let f = *r.pick(&[Flavor::Kw, Flavor::Kw, Flavor::Plain]);
    let bn = match bench(cx, r, f, 16) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..4 { any_name(cx, r, &bn)?; }
    for _ in 0..8 {
        let ctx = pick_ctx(r, &bn.d);
        let e = telling(r, &bn, ctx, &mut |r| {
            let mut g = G::new(r, &bn.d);
            g.wild = 0;
            if g.r.chance(1, 4) { let d = 1 + g.r.below(3); return g.any(d); }
            if g.r.chance(1, 3) { return assoc(&mut g, &bn.d, ctx); }
            let t = *g.r.pick(&[T::Int, T::Int, T::Bool, T::Bool, T::Nodes, T::Str, T::Ints]);
            let d = 1 + g.r.below(4);
            chain(&mut g, t, d)
        });
        let mut first: Option<(String, Result<String, String>)> = None;
        for paren in [Paren::Min, Paren::Full, Paren::Random] {
            for space in [Space::Single, Space::Tight, Space::Wild] {
                let st = Style { paren, space, abbrev: r.chance(2, 3), any_quote: true };
                let src = render(&e, r, st);
                cx.count(match paren { Paren::Min => "fewest parentheses", Paren::Full => "all parentheses", Paren::Random => "some parentheses" });
                cx.count(match space { Space::Single => "single spaces", Space::Tight => "fewest spaces", Space::Wild => "wild white space" });
                if src.contains("(:") { cx.count("with comments"); }
                if src.contains("\"\"") || src.contains("''") { cx.count("doubled quote"); }
                if f == Flavor::Kw && has_words(&src) { cx.count("keyword among the names"); }
                judge_src(cx, r, &bn, &e, &src, ctx)?;
                let got = real(&bn.d.ptrs[ctx], &src).map(|s| s.to_string()).map_err(|_| "error".to_string());
                match &first {
                    None => first = Some((src, got)),
                    Some((s0, g0)) => {
                        cx.count("renderings compared");
                        if *g0 != got { return violation(format!("two renderings of one expression differ: {} gives {:?}\n  and {} gives {:?}\n  on node {} of {}", s0, g0, src, got, ctx, bn.text)); }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------
// C30

const TEMPLATES: &[&str] = &[
    "", " ", "(: only a comment :)", "a[]", "f(,)", "count(,)", "count(1,)", "count(,1)", "concat('a',,'b')", "if () then", "if (1) then 2", "if (1) else 2", "if 1 then 2 else 3", "if (1) then else 3", "if (1) then 2 else",
    "if (1) 2 else 3", "if then 1 else 2", "$", "$ ", "$1", "@", "@@a", "a/", "a//", "//", "/a/", "a///b", "////a", "child::", "foo::a", "child::child::a", "child:a:b", "::a", "a::", "descendant::[1]", "(: open", "1 (: open (: inner :)",
    "\"", "'", "\"a", "'a\"", "'it's'", "a b", "1 2", "1 'a'", "'a' 'b'", "'a' b", "a 'b'", "(1) 2", "(1)(", "1)", "(1", "((1)", "[1", "1]", "a[1", "a]", "a[1]]", "{1}", "{", "}", "1,,2", ",1", "1,", "(1,)", "(,1)", "(,)",
    "for $x", "for $x in", "for $x in 1", "for $x in 1 return", "for x in 1 return 1", "for $x 1 return 1", "for $x in 1 satisfies 1", "for $x in 1, return 1", "for in 1 return 1", "for $x in 1, $y return 1", "for $x := 1 return 1",
    "let $x", "let $x := ", "let $x := 1", "let $x := 1 return", "let $x = 1 return 2", "let $x in 1 return 2", "let x := 1 return 2", "let $x : = 1 return 2", "let $x := 1, return 1", "let $x := 1 let $y := 2",
    "some $x in 1", "some $x in 1 return 1", "every $x in 1 return 1", "some $x satisfies 1", "some x in 1 satisfies 1", "every $x in 1 satisfies", "some $x in 1, satisfies 1",
    "1 +", "+", "-", "* *", "1 * ", "* 1", "1 div", "1 idiv", "1 mod", "1 = ", "= 1", "1 = = 1", "1 == 1", "1 ! = 2", "1 =! 2", "1 <> 2", "1 < > 2", "1 =< 2", "1 => 2", "1 < = 2", "1 eq", "1 to", "1 and", "1 or", "1 union", "1 is", "a |", "| a", "a || ", "|| a", "a ||| b", "1 !", "! 1", "1 ! ! 2", "a intersect", "a except",
    "1 < 2 < 3", "1 = 2 = 3", "1 eq 2 eq 3", "1 to 2 to 3", "a is b is c", "1 = 2 eq 3", "a << b >> c",
    "1 instance", "1 instance of", "1 instance xs:integer", "1 instance of 2", "1 of xs:integer", "1 instance of xs:integer xs:string", "1 instance of xs:integer??", "1 instance of ()", "1 instance of item(", "1 instance of function(", "1 instance of function(xs:integer)", "1 instance of function() as", "1 instance of function(xs:integer,) as item()", "1 instance of function(,xs:integer) as item()", "1 instance of function(,) as item()", "1 instance of function(xs:integer xs:string) as item()", "1 instance of map(xs:integer,)", "1 instance of map(,item())", "1 instance of map(xs:integer,item(),item())", "1 instance of array(item(),item())", "1 instance of array(item(),)", "1 instance of element(a,)", "function($x as xs:integer,){1}", "function($x as){1}", "function(as xs:integer){1}", "function($x as xs:integer $y){1}", "function($x,,$y){1}", "count#1,", "p :*", "p: *", "* :a", "*: a", "@p :*", "child:: *:", "1 cast as xs :integer", "1 cast as xs: integer", "a : b", "xs :integer('1')", "$a :b", "count (1)#", "1 instance of node()()", "document-node(", "a/document-node(1", "document-node(1)", "document-node(a b)", "1 instance of document-node(", "1 instance of document-node(element(a)", "schema-element()", "schema-element(a", "schema-attribute()", "schema-element(1)", "namespace-node(", "namespace-node(a)", "1 instance of schema-element()", "element(a,b c)", "element(,b)", "attribute(a,)", "attribute(,)", "element(a", "attribute(a", "comment(", "processing-instruction(", "processing-instruction('a'", "processing-instruction(a", "processing-instruction('a' 'b')", "processing-instruction(,)", "item(1)", "node(", "node(*", "text(*)", "1 instance of array(*", "1 instance of map(*", "1 instance of map(xs:integer, item()", "1 instance of array(item()", "1 instance of function(*", "1 instance of function(* as item()", "1 instance of function(item() as item()", "1 instance of (xs:integer", "1 instance of empty-sequence(", "1 instance of empty-sequence()?", "1 instance of empty-sequence(1)", "1 instance of xs:integer()", "1 cast as xs:integer()", "1 castable as node()", "1 cast as item()", "1 cast as empty-sequence()", "1 instance of map(", "1 instance of map()", "1 instance of map(xs:integer)", "1 instance of map(*,*)", "1 instance of array()", "1 instance of array(", "1 instance of element(", "1 instance of text(1)",
    "1 cast", "1 cast as", "1 cast xs:integer", "1 cast as 2", "1 cast as xs:integer*", "1 cast as xs:integer+", "1 castable", "1 castable as", "1 castable as 'a'", "1 cast as xs:integer cast as xs:string", "1 castable as xs:integer castable as xs:string", "1 instance of xs:integer instance of xs:boolean",
    "map{", "map{1}", "map{1:}", "map{:1}", "map{1:2", "map{1:2,}", "map{,1:2}", "map{1:2 3:4}", "map{1,2}", "map 1", "map{1:2}}", "array{", "array{1", "array{1,}", "array 1", "[1,", "[,1]", "[1 2]", "[1]]",
    "function(", "function()", "function(){", "function(){1", "function(x){1}", "function($x){", "function($x,){1}", "function(,$x){1}", "function($x $y){1}", "function($x as){1}", "function($x) as {1}", "function($x) 1", "function($x as xs:integer xs:integer){1}", "function {1}",
    "count#", "#1", "count#a", "count#1.5", "count#-1", "count#1#1", "1#1", "(count)#1", "$f(", "$f(1", "(1)(", "a(", "count(", "count(1", "count 1)", "count((1)", "1 =>", "=> count()", "1 => count", "1 => 1()", "1 => count(", "1 => $f", "1 => => count()", "1 =>> count()",
    "a:", ":a", "a:b:c", ": a", "a :b", "a: b", "*:", ":*", "a:*:b", "*:*:a", "/..a", "..a", ". .", ".. ..", "... ", "....", ".a", "a/.b",
    "?", "?1?", "$m?", "map{}?", "map{}??a", "map{}?[1]", "map{}?$x", "map{}?'a'", "?-1", "map{}?1.5", "node(", "text(", "text(a", "node()()node", "comment('a')", "text('a')", "node(1)", "element(a b)", "processing-instruction(a b)", "processing-instruction(1)", "attribute(a b)", "@text(", "@a[", "a@b", "a@", "@/a", "@1", "a[@]", "a[=1]", "a[1,]", "a[,]", "a[1][", "a[][1]",
    "1e", "1e+", "1.5e", "1.5e-", "0x1F", "1.2.3", "12abc", "1a", "1.a", "1_000", "1e5e5", "1..2",
    "1;2", "1;", ";", "^", "1 ^ 2", "~a", "a~", "a & b", "a && b", "&", "`a`", "\\", "a\\b", "1 % 2", "a#b", "a; b", "{a}", "a{b}", "<a/>", "<a>", "a >", "< a", "> a", "$x y", "$x $y", "$$x", "$x:", "$:x", "$(x)", "$'x'",
    "return 1", "else 1", "1 return 2", "1 then 2", "1 else 2", "1 in 2", "1 satisfies 2", "1 as xs:integer", "a as b", "in $x", "nosuch(1)", "count()", "count(1,2)", "true(1)", "substring('a')", "concat#0 1", "nosuch#1", "count#3", "1 => nosuch()", "1 => count(1)", "fn:nosuch(1)", "unknown:count(1)",
    "if(1)", "if(1)(2)", "if(1) then(2)", "text()()", "node()#1", "item()", "1 treat xs:integer", "1 treat as", "a union", "union union union union", "div div", "and and", "or or", "instance of", "a instance of", "cast as xs:integer", "castable as xs:integer",
    "count(1)(2", "(1, 2", "(1, (2, 3)", "1, (2", "let $x := (1 return $x", "for $x in (1, 2 return $x", "some $x in (1 satisfies 2", "[1, 2", "map{'a': (1}", "a[b[c]", "a[b[c]]]", "((a)", "(a))", "(]", "[)", "(}", "{)", "(1]", "[1)", "a[1)", "count(1]", "map{1:2)", "map(1:2}",
];

/// Positions whose expression is read but not evaluated; the whole yields 1.
const UNUSED: &[&str] = &["if (true()) then 1 else (T)", "if (false()) then (T) else 1", "(() ! (T), 1)", "(for $unused in () return (T), 1)", "if (false() and (T)) then 2 else 1", "if (true() or (T)) then 1 else 2", "count(function() { T })", "(()[T], 1)", "(1, () / (T))", "(let $unused := function($q) { (T) } return 1)", "if (some $unused in () satisfies (T)) then 2 else 1", "if (every $unused in () satisfies (T)) then 1 else 2", "count([1, function() { (T) }])", "count(map { 1 : function() { [T] } })", "(nosuchname/a[T], 1)", "(nosuchname/(T), 1)"];

fn all_fail(cx: &mut Cx, n: &NodePtr, src: &str, why: &str, at: &str) -> Outcome {
    cx.note(&format!("malformed ({}): {}\n  {}", why, src, at));
    if let Ok(v) = n.eval_xpath(src) { return violation(format!("malformed ({}) but eval_xpath yields {}: {}\n  {}", why, v.to_string(), src, at)); }
    if let Ok(v) = n.get_nodeset(src) { return violation(format!("malformed ({}) but get_nodeset yields {} nodes: {}\n  {}", why, v.len(), src, at)); }
    if let Some(v) = n.get_first_node(src) { return violation(format!("malformed ({}) but get_first_node yields {}: {}\n  {}", why, v.to_string(), src, at)); }
    let mut k = 0;
    if n.each_node(src, |_| k += 1).is_ok() { return violation(format!("malformed ({}) but each_node succeeds: {}\n  {}", why, src, at)); }
    if k > 0 { return violation(format!("malformed ({}) but each_node visits {} nodes: {}\n  {}", why, k, src, at)); }
    cx.count(why);
    cx.eval(Some(src));
    Ok(())
}

fn tok(t: &str, k: TK) -> Tok { Tok { t: t.to_string(), k } }
fn is_bracket(t: &Tok) -> bool { t.k != TK::Str && matches!(t.t.as_str(), "(" | ")" | "[" | "]" | "{" | "}") }

/// One damage that leaves no expression of the grammar.
fn damage(r: &mut Rng, v: &[Tok]) -> Option<(Vec<Tok>, &'static str)> {
    let mut v = v.to_vec();
    let at = |r: &mut Rng, v: &Vec<Tok>, f: &dyn Fn(usize) -> bool| -> Option<usize> { let c: Vec<usize> = (0..v.len()).filter(|i| f(*i)).collect(); if c.is_empty() { None } else { Some(*r.pick(&c)) } };
    let word_op = |t: &Tok| t.k == TK::Word && matches!(t.t.as_str(), "or" | "and" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "is" | "to" | "div" | "idiv" | "mod" | "union" | "intersect" | "except" | "instance" | "of" | "castable" | "cast" | "as" | "then" | "else" | "return" | "in" | "satisfies");
    match r.below(13) {
        11 => {
            // no construct has a comma next to a bracket inside it
            let i = at(r, &v, &|i| is_bracket(&v[i]))?;
            let j = if "([{".contains(v[i].t.as_str()) { i + 1 } else { i };
            v.insert(j, tok(",", TK::Punct));
            Some((v, "comma next to a bracket"))
        }
        12 => {
            // nor does one follow an operator
            let i = at(r, &v, &|i| v[i].k == TK::Op || word_op(&v[i]) && i > 0 && !(v[i - 1].t == "?" && v[i - 1].k == TK::Punct))?;
            v.insert(i + 1, tok(",", TK::Punct));
            Some((v, "comma after an operator"))
        }
        0 => { let i = at(r, &v, &|i| is_bracket(&v[i]))?; v.remove(i); Some((v, "bracket deleted")) }
        1 => { let i = r.below(v.len() + 1); let b = r.s(&["(", ")", "[", "]", "{", "}"]); v.insert(i, tok(&b, TK::Punct)); Some((v, "bracket inserted")) }
        2 => {
            let l = v.last()?;
            if l.k == TK::OccInd { return None; }
            let t = r.s(&["5", "1.5", "0"]);
            v.push(tok(&t, TK::Num));
            Some((v, "number appended"))
        }
        3 | 4 => {
            let i = at(r, &v, &|i| {
                if i + 1 >= v.len() { return false; }
                let t = &v[i];
                t.k == TK::Op || t.k == TK::Punct && matches!(t.t.as_str(), "," | "::" | "@" | ":=" | "!" | "//")
                    || word_op(t) && i > 0 && !(v[i - 1].t == "?" && v[i - 1].k == TK::Punct)
                    || t.t == "/" && i > 0 && (v[i - 1].t == ")" || v[i - 1].t == "]")
                    || v[..=i].iter().filter(|t| is_bracket(t) && "([{".contains(t.t.as_str())).count() > v[..=i].iter().filter(|t| is_bracket(t) && ")]}".contains(t.t.as_str())).count()
            })?;
            v.truncate(i + 1);
            Some((v, "cut off"))
        }
        5 => {
            let i = at(r, &v, &|i| matches!(v[i].t.as_str(), "then" | "else" | "return" | "in" | "satisfies" | ":=" | "of" | "as") && v[i].k != TK::Str && i > 0 && v[i - 1].t != "?")?;
            v.remove(i);
            Some((v, "keyword dropped"))
        }
        6 => {
            let i = at(r, &v, &|i| v[i].t == "::" && v[i].k == TK::Punct && i + 1 < v.len() && !v[i + 1].t.starts_with('*') && v[i + 1].t != "@")?;
            v.remove(i);
            Some((v, "'::' dropped"))
        }
        7 => {
            let i = at(r, &v, &|i| v[i].k != TK::Str && matches!(v[i].t.as_str(), "=" | "!=" | "<" | "<=" | ">" | ">=" | "||" | "|" | "," | ":=" | "::" | "=>" | "!" | "<<" | ">>"))?;
            let t = v[i].clone();
            v.insert(i, t);
            Some((v, "operator doubled"))
        }
        8 => { let i = r.below(v.len() + 1); let c = if r.chance(1, 2) { r.s(&["\u{A0}", "\u{B}", "\u{C}", "\u{85}", "\u{2003}", "\u{200B}", "\u{2028}", "\u{202F}", "\u{205F}", "\u{3000}", "\u{1F}", "\u{7F}"]) } else { r.s(&["^", ";", "~", "&", "`", "\\", "§", "¬", "\u{1}", "%", "°", "×", "∧"]) }; v.insert(i, tok(&c, TK::Punct)); Some((v, "stray character")) }
        9 => {
            let i = (0..v.len()).rev().find(|i| v[*i].k == TK::Str)?;
            v[i].t.pop();
            Some((v, "closing quote dropped"))
        }
        _ => {
            let i = at(r, &v, &|i| v[i].k == TK::Num)?;
            v[i].t = if r.chance(1, 2) { bad_number(r) } else { r.s(&["1e", "1.5e+", "0x1F", "1.2.3", "12abc", "2e-", "7up", "1e5e5", "5.e", "0b1"]) };
            Some((v, "bad number"))
        }
    }
}

/// A string of digits, points and exponent marks that is not a numeric literal.
fn bad_number(r: &mut Rng) -> String {
    loop {
        let mut t = r.s(&["0", "1", "7", "12"]);
        for _ in 0..1 + r.below(6) { t += &r.s(&["0", "5", "31", ".", ".", "e", "E", "e+", "e-", ".5"]); }
        let b = t.as_bytes();
        let digits = |mut i: usize| { while i < b.len() && b[i].is_ascii_digit() { i += 1; } i };
        let mut i = digits(0);
        if i < b.len() && b[i] == b'.' { i = digits(i + 1); }
        if i < b.len() && (b[i] | 32) == b'e' {
            let mut j = i + 1;
            if j < b.len() && (b[j] == b'+' || b[j] == b'-') { j += 1; }
            let k = digits(j);
            if k > j { i = k; }
        }
        if i < b.len() { return t; }
    }
}

pub fn c30(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let bn = match bench(cx, r, Flavor::Plain, 10) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..6 {
        let ctx = pick_ctx(r, &bn.d);
        let n = &bn.d.ptrs[ctx];
        let at = format!("on node {} of {}", ctx, bn.text);
        // fixed malformed expressions, alone and where they are not evaluated
        for _ in 0..2 {
            let t = r.s(TEMPLATES);
            all_fail(cx, n, &t, "template", &at)?;
            // with both '(:' comments and quotes left open, the rest is swallowed: still malformed
            let u = r.s(UNUSED).replace("T", &t);
            if t.trim().is_empty() || t.starts_with("(: only") || closes(&t) { continue; }
            all_fail(cx, n, &u, "template, not evaluated", &at)?;
        }
        {
            let w = crate::names::no_expr_name(r);
            let t = r.s(&["let $N := 1 return $N", "let $N := 1 return 1", "for $N in 1 return 1", "function($N) { 1 }(1)", "map { 'N' : 1 }?N", "count(//N)", "@N", "1[N]", "self::N", "if (1) then 1 else N", "if (1) then 1 else $N", "true() or N", "map{1:1}?N", "N:a", "a:N", "N()", "1 N 2", "1 instance of N"]);
            let q = t.replace('N', &w);
            if !t.contains("'N'") || t.contains("?N") { all_fail(cx, n, &q, "character that no name may contain", &at)?; }
        }
        let t = bad_number(r);
        all_fail(cx, n, &t, "bad number alone", &at)?;
        let u = r.s(UNUSED).replace("T", &t);
        all_fail(cx, n, &u, "bad number alone", &at)?;
        // integers that do not fit are errors where they are evaluated
        if r.chance(1, 4) {
            let x = r.s(&["9223372036854775808", "99999999999999999999", "-9223372036854775809", "18446744073709551616", "10000000000000000000", "123456789012345678901234567890"]);
            let u = r.s(&["N", "1 + N", "(1, N)", "count((N))", "string(N)", "if (N) then 1 else 2", "[N]", "N = 1", "(1, 2)[N]", "map { 1 : N }", "let $x := N return $x", "-(N)", "N idiv N"]).replace("N", &x);
            all_fail(cx, n, &u, "integer too big", &at)?;
        }
        // damaged expressions
        let e = {
            let mut g = G::new(r, &bn.d);
            let d = 1 + g.r.below(3);
            if g.r.chance(1, 3) { let t = *g.r.pick(&[T::Int, T::Bool, T::Nodes, T::Str, T::Ints]); chain(&mut g, t, d) } else { g.any(d) }
        };
        let st = Style { paren: Paren::Min, space: Space::Single, abbrev: r.chance(1, 2), any_quote: true };
        let toks = tokens(&e, r, st);
        // operator words as names would make some damages harmless
        if toks.iter().enumerate().any(|(i, t)| t.k == TK::Word && t.t != "in" && is_keyword(&t.t) && (i == 0 || toks[i - 1].k == TK::Op || toks[i - 1].k == TK::Word && is_keyword(&toks[i - 1].t) && !matches!(t.t.as_str(), "of" | "as") || matches!(toks[i - 1].t.as_str(), "::" | "@" | "/" | "//" | "(" | "[" | "," | "!" | "{"))
            && !matches!(t.t.as_str(), "for" | "let" | "some" | "every" | "if")) { cx.count("skipped: operator word as a name"); continue; }
        let whole = join(&toks, Space::Single, r);
        let frame = r.s(UNUSED);
        {
            // the expression itself is accepted in that place
            let u = frame.replace("T", &whole);
            cx.note(&format!("{}\n  {}", u, at));
            match n.eval_xpath(&u) {
                Ok(v) if v.to_string() == "1" => { cx.count("undamaged, not evaluated"); cx.eval(Some(&u)); }
                Ok(v) => return violation(format!("{} yields {}, expected 1\n  {}", u, v.to_string(), at)),
                Err(e) => return violation(format!("{} is an error, expected 1: {}\n  {}", u, e.to_string(), at)),
            }
        }
        for _ in 0..6 {
            let (v, why) = match damage(r, &toks) { Some(x) => x, None => continue };
            let sp = if why != "bad number" && r.chance(1, 4) { Space::Wild } else { Space::Single };
            let bad = join(&v, sp, r);
            all_fail(cx, n, &bad, why, &at)?;
            let u = frame.replace("T", &bad);
            all_fail(cx, n, &u, why, &at)?;
        }
    }
    Ok(())
}

/// Templates that become well-formed, or well-formed differently, inside brackets.
fn closes(t: &str) -> bool {
    // an empty argument list, sequence or predicate can be completed by the frame
    t.contains(')') && unbalanced(t) || t.contains(']') && unbalanced(t) || t.contains('}') && unbalanced(t) || t == "" || t == ","
}
fn unbalanced(t: &str) -> bool {
    let mut st = vec![];
    for c in t.chars() {
        match c {
            '(' => st.push(')'), '[' => st.push(']'), '{' => st.push('}'),
            ')' | ']' | '}' => if st.pop() != Some(c) { return true; },
            _ => {}
        }
    }
    !st.is_empty()
}

// ---------------------------------------------------------------------
// C31

const VOCAB: &[&str] = &[
    "(", ")", "(", ")", "[", "]", "{", "}", ",", ",", ".", "..", "/", "//", "@", "::", ":", ":=", "?", "!", "#", "$", "*", "+", "-", "=", "!=", "<", "<=", ">", ">=", "<<", ">>", "|", "||", "=>",
    "a", "b", "c", "k", "id", "n:a", "*:a", "n:*", "$x", "$y", "$f", "$unbound", "0", "1", "2", "3", "10", "-1", "1.5", "0.0", ".5", "1e0", "0e0", "'a'", "\"b\"", "''", "'10'", "'日😀'",
    "child::", "descendant::", "parent::", "ancestor::", "following::", "preceding::", "following-sibling::", "preceding-sibling::", "self::", "attribute::", "descendant-or-self::", "ancestor-or-self::", "namespace::",
    "node()", "text()", "comment()", "processing-instruction()", "element()", "attribute()", "document-node()", "element(a)", "item()",
    "for $x in", "return", "let $x :=", "some $x in", "every $x in", "satisfies", "if (", "then", "else", "and", "or", "eq", "ne", "lt", "le", "gt", "ge", "is", "to", "div", "idiv", "mod", "union", "intersect", "except",
    "instance of", "cast as", "castable as", "treat as", "xs:integer", "xs:string", "xs:double", "xs:decimal", "xs:boolean", "xs:nosuch", "empty-sequence()", "function(*)", "map(*)", "array(*)",
    "map {", "array {", "function($x) {", "function() {", "count(", "sum(", "string(", "number(", "position()", "last()", "name(", "substring(", "concat(", "reverse(", "subsequence(", "remove(", "insert-before(", "index-of(", "fold-left(", "for-each(", "filter(", "sort(", "map:get(", "map:put(", "array:get(", "array:put(", "array:remove(", "array:subarray(", "codepoints-to-string(", "translate(", "round(", "tokenize(", "error(", "(:", ":)", "count#1", "concat#3", "function-arity(", "root(", "lang(", "data(", "deep-equal(", "min(", "avg(",
];
const EXTREME: &[&str] = &["9223372036854775807", "-9223372036854775807", "9223372036854775808", "-9223372036854775808", "4294967296", "-4294967297", "2147483648", "1e308", "-1e308", "1e309", "4.9e-324", "1e-400", "0.00000000000000000001", "99999999999999999999.5", "9223372036854775807.5", "0e0", "-0e0", "(1e0 div 0)", "(-1e0 div 0)", "number('x')", "1e19", "-1e19", "1e18", "9007199254740993", "0.1", "-0.5", "-1", "0", "''", "()", "(1, 2)", "'9223372036854775808'"];
/// Function templates taking an extreme number somewhere.
const TAKES: &[&str] = &["N + N", "N - N", "N * N", "N div N", "N idiv N", "N mod N", "-(N)", "- -(N)", "abs(N)", "round(N)", "round(N, N)", "floor(N)", "ceiling(N)", "sum((N, N))", "avg((N, N))", "max((N, N))", "min((N, N))", "N cast as xs:integer", "N cast as xs:decimal", "N cast as xs:double", "N cast as xs:string", "N castable as xs:integer", "substring('abc', N)", "substring('abc', N, N)", "subsequence((1,2,3), N)", "subsequence((1,2,3), N, N)", "remove((1,2,3), N)", "insert-before((1,2,3), N, 9)", "(1,2,3)[N]", "//*[N]", "/*[position() = N]", "[1,2,3](N)", "[1,2,3]?(N)", "map{N: 1}(N)", "array:get([1,2], N)", "array:put([1,2], N, 3)", "array:remove([1,2], N)", "array:subarray([1,2], N)", "array:subarray([1,2], N, N)", "array:insert-before([1,2], N, 0)", "codepoints-to-string(N)", "codepoints-to-string((N, N))", "N = N", "N < N", "N eq N", "N lt N", "index-of((N, N), N)", "N to N", "(N)[. to N]", "string(N)", "number(N)", "boolean(N)", "not(N)", "N || N", "concat(N, N)", "if (N) then N else N", "some $x in (N, N) satisfies $x = N", "for $x in (N, N) return $x + N", "deep-equal(N, N)", "distinct-values((N, N))", "sort((N, N))", "reverse((N, N))", "translate(string(N), '0', string(N))", "map:get(map{N: N}, N)", "map:put(map{}, N, N)", "array:append([], N)", "string-join((N, N), '-')", "N ! (. + N)", "N idiv N idiv N", "(N * N) mod N", "floor(N div N)", "(N div N) cast as xs:integer", "count((N, N)[. > N])", "head((N, N))", "tail((N, N))", "string-length(string(N))", "compare(string(N), string(N))", "N => round(N)", "function($x as xs:integer) { $x + 1 }(N)", "zero-or-one(N)", "exactly-one(N)", "fold-left((N, N), N, function($x, $y) { $x + $y })", "for-each((N, N), round#1)", "apply(round#2, [N, N])"];

fn small(r: &mut Rng, toks: Vec<String>) -> Vec<String> {
    // ranges are materialized: keep them small
    let mut to = 0;
    let ranged = toks.iter().any(|t| t.contains("to"));
    toks.into_iter().filter(|t| {
        if t.split_whitespace().any(|w| w == "to") { to += 1; if to > 2 { return false; } }
        true
    }).map(|t| if ranged && (t.chars().filter(|c| c.is_ascii_digit()).count() > 2 || t == "*" && r.chance(1, 2)) { "2".to_string() } else { t }).collect()
}
/// Whether a string could ask for a big range: `to` with long numbers or products.
pub fn big_range(s: &str) -> bool {
    if !s.contains("to") { return false; }
    let mut digits = 0;
    let mut nums = 0;
    for c in s.chars() { if c.is_ascii_digit() { digits += 1; if digits > 2 { return true; } if digits == 1 { nums += 1; } } else if c != '.' { digits = 0; } }
    let tos = s.matches("to").count();
    let _ = nums;
    tos > 3 || s.matches('*').count() > 2 || s.contains('e') && s.chars().zip(s.chars().skip(1)).any(|(a, b)| a.is_ascii_digit() && (b == 'e' || b == 'E'))
}
/// Nesting and repetition that multiply the work.
pub fn heavy(s: &str) -> bool {
    s.matches("for $").count() > 4 || s.matches("$f($f").count() > 0 || s.matches("//").count() > 8 || s.matches("ancestor").count() + s.matches("descendant").count() + s.matches("following").count() + s.matches("preceding").count() > 10
        || s.matches("function").count() > 6 || s.matches('!').count() > 8 || s.matches("(1").count() > 40 || s.chars().fold((0i32, 0i32), |(d, m), c| match c { '(' | '[' | '{' => (d + 1, m.max(d + 1)), ')' | ']' | '}' => (d - 1, m), _ => (d, m) }).1 > 120
}

fn any_string(cx: &mut Cx, r: &mut Rng, d: &Doc) -> (String, &'static str) {
    let expr = |r: &mut Rng| { let mut g = G::new(r, d); let k = g.r.below(4); let e = if g.r.chance(1, 3) { chain(&mut g, T::Int, k) } else { g.any(k) }; e };
    match r.below(12) {
        0 | 1 => { let n = 1 + r.below(14); let v = (0..n).map(|_| r.s(VOCAB)).collect(); (small(r, v).join(if r.chance(2, 3) { " " } else { "" }), "token soup") }
        2 | 3 => {
            // tokens of a valid expression, disturbed
            let e = expr(r);
            let st = Style { paren: Paren::Min, space: Space::Single, abbrev: true, any_quote: true };
            let mut v: Vec<String> = tokens(&e, r, st).into_iter().map(|t| t.t).collect();
            for _ in 0..1 + r.below(3) {
                if v.is_empty() { break; }
                let i = r.below(v.len());
                match r.below(6) {
                    0 => { v.remove(i); } 1 => { let t = v[i].clone(); v.insert(i, t); } 2 => { let j = r.below(v.len()); v.swap(i, j); }
                    3 => v[i] = r.s(VOCAB), 4 => { let t = r.s(VOCAB); v.insert(i, t); } _ => v.truncate(i + 1),
                }
            }
            (small(r, v).join(" "), "disturbed tokens")
        }
        4 => { let e = expr(r); let t = canon(&e); (crate::cxml::mutate(r, &t), "disturbed characters") }
        5 | 6 | 7 => {
            let mut t = r.s(TAKES);
            while let Some(i) = t.find('N') { let n = if r.chance(3, 4) { r.s(EXTREME) } else { format!("{}", r.range(-3, 12)) }; t.replace_range(i..i + 1, &n.replace('N', "n")); }
            (t, "extreme numbers")
        }
        8 if r.chance(1, 3) => {
            // short ranges at the ends of the integers
            let k = r.below(4) as i64;
            let (a, z) = if r.chance(1, 2) { (i64::MAX - k, i64::MAX - r.below(4) as i64) } else { (i64::MIN + 1 + r.below(3) as i64, i64::MIN + 1 + k) };
            let end = |r: &mut Rng, n: i64| if n < i64::MIN + 3 && r.chance(1, 3) { "(-9223372036854775807 - 1)".to_string() } else { n.to_string() };
            let (a, z) = (end(r, a), end(r, z));
            (r.s(&["A to Z", "count(A to Z)", "(A to Z)[last()]", "for $i in A to Z return $i", "sum(A to Z)", "(1, 2)[. = (A to Z)]", "subsequence(A to Z, 2)", "reverse(A to Z)", "max(A to Z)", "(A to Z) ! (. - 1)", "some $x in A to Z satisfies $x + 1 > 0", "(A to Z, 1 to 3)", "[A to Z]", "map { A : Z }", "(1, 2, 3)[position() = A to Z]", "avg(A to Z)", "remove(A to Z, Z)", "insert-before(A to Z, A, Z)", "index-of(A to Z, A)"]).replace('A', &a).replace('Z', &z), "range at the end of the integers")
        }
        8 => {
            let k = 1 + r.below(if cx.thorough { 400 } else { 120 });
            let (a, m, z) = match r.below(14) {
                0 => ("1", " + 1", ""), 1 => ("'a'", " || 'b'", ""), 2 => ("a", "/a", ""), 3 => (".", "/..", ""), 4 => ("1", ", 1", ""), 5 => ("1", "[1]", ""), 6 => ("-", "-", "1"),
                7 => ("a", " | a", ""), 8 => ("1", " ! .", ""), 9 => ("true()", " and true()", ""), 10 => ("1", " => string()", ""), 11 => ("map{}", "?a", ""), 12 => ("let $x := 1 return ", "let $x := $x + 1 return ", "$x"), _ => ("if (1) then 1 else ", "if (0) then 2 else ", "3"),
            };
            (format!("{}{}{}", a, m.repeat(k), z), "long chain")
        }
        9 => {
            let k = 1 + r.below(90);
            let (a, z) = *r.pick(&[("(", ")"), ("[", "]"), ("array{", "}"), ("map{1:", "}"), ("string(", ")"), ("a[", "]"), ("(:", ":)"), ("function(){", "}()"), ("-(", ")"), ("not(", ")"), ("count((", "))"), ("(1, ", ")")]);
            let k2 = if r.chance(2, 3) { k } else { r.below(90) };
            (format!("{}{}{}", a.repeat(k), r.s(&["1", "", "a", "'"]), z.repeat(k2)), "nesting")
        }
        10 if r.chance(1, 2) => {
            // references to functions with extreme arities
            let n = if r.chance(1, 4) { r.range(0, 40).to_string() } else { r.s(&["17", "255", "256", "1000", "65536", "100000000", "2147483648", "4294967296", "4294967298", "9223372036854775807", "18446744073709551615", "99999999999999999999"]) };
            let f = if r.chance(2, 3) { "concat".to_string() } else { r.s(&["count", "string", "true", "substring", "nosuch", "fn:concat", "max"]) };
            (r.s(&["F#N", "(F#N)(1)", "F#N(1, 2)", "F#N instance of function(*)", "F#N instance of function(item()) as item()", "F#N instance of function(item(), item()) as item()*", "for-each((1, 2), F#N)", "filter((1, 2), F#N)",
                "for-each-pair((1, 2), (3, 4), F#N)", "fold-left((1, 2), 0, F#N)", "let $f := F#N return $f(1, 2)", "[F#N]", "map{1: F#N}?1('a', 'b')", "(1, 2) ! F#N", "1 => F#N()", "1 castable as F#N", "count((F#N, F#N))", "function($f as function(item()) as item()) {1}(F#N)",
                "function($f as function(*)) {1}(F#N)", "string(F#N)", "F#N = 1", "F#N + 1", "sort((2, 1), (), F#N)", "array:for-each([1], F#N)", "apply(F#N, [1, 2])", "function-arity(F#N)", "(F#N)[1]", "if (F#N) then 1 else 2"]).replace('F', &f).replace('N', &n), "extreme arities")
        }
        10 => { let n = r.below(20); ((0..n).map(|_| wild_char(r)).filter(|c| *c != '\0').collect(), "characters") }
        _ => {
            // quotes, comments and prefixes in odd places
            let n = 1 + r.below(12);
            ((0..n).map(|_| r.s(&["'", "\"", "(:", ":)", "(", ")", ":", "a", " ", "\n", "$", "1", ".", "e", "-", "&lt;", "\u{FEFF}", "é", "😀", "Q{u}a", "#", "1.", "..", "\t"])).collect::<String>(), "lexical soup")
        }
    }
}

pub fn c31(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let f = *r.pick(&[Flavor::Plain, Flavor::Ns, Flavor::Lang, Flavor::Kw]);
    let bn = match bench(cx, r, f, 12) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..12 {
        let (s, kind) = any_string(cx, r, &bn.d);
        if kind != "range at the end of the integers" && (big_range(&s) || heavy(&s)) { cx.count("skipped: big range or heavy"); continue; }
        cx.count(kind);
        let ctx = if r.chance(1, 2) { pick_ctx(r, &bn.d) } else { r.below(bn.d.nodes.len()) };
        let n = &bn.d.ptrs[ctx];
        cx.note(&format!("{}\n  on node {} of {}", s, ctx, bn.text));
        crate::alloc::reset_peak();
        let live = crate::alloc::live();
        let t0 = std::time::Instant::now();
        match n.eval_xpath(&s) {
            Ok(v) => {
                let whole = v.to_string();
                cx.count("result");
                for i in 0..v.len().min(2000) {
                    let it = v.get_item(i);
                    let t = it.to_string();
                    if let Some(p) = it.as_nodeptr() { let _ = (p.name(), p.value(), p.to_string()); cx.count("node of a result used"); }
                    if v.len() == 1 && !t.is_empty() && whole.is_empty() { return violation(format!("{} renders as nothing, its item as {}", s, t)); }
                    cx.count("item rendered");
                }
            }
            Err(e) => { let _ = e.to_string(); cx.count("error"); }
        }
        let _ = n.get_first_node(&s).map(|p| p.to_string());
        let _ = n.get_nodeset(&s);
        let _ = n.each_node(&s, |p: NodePtr| { let _ = p.name(); });
        let used = crate::alloc::peak() - live;
        let took = t0.elapsed().as_secs_f64();
        cx.eval(if s.len() > 2 { Some(&s) } else { None });
        if used > 512 << 20 { return violation(format!("{} MB of heap for {}\n  on node {} of {}", used >> 20, s, ctx, bn.text)); }
        if took > 20.0 { return violation(format!("{:.0} s for {}\n  on node {} of {}", took, s, ctx, bn.text)); }
    }
    // the document is still usable
    if bn.root.eval_xpath("count(//node())").is_err() { return violation(format!("the document cannot be queried any more: {}", bn.text)); }
    let _ = new_document("<a/>");
    Ok(())
}
