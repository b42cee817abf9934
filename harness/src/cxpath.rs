//! Checks of what expressions mean (C14 - C28, C32, C33, C35): each one draws
//! expressions around the constructs of its property and compares what the
//! code under test yields with the reference evaluator.
use crate::ast::*;
use crate::gen::*;
use crate::model::{DocCfg, Doc, M, Kind};
use crate::refeval::{sig_of, SIGNATURES};
use crate::rng::Rng;
use crate::runner::{violation, Cx, Outcome};
use crate::xbench::*;

fn depth(r: &mut Rng, cx: &Cx, max: usize) -> usize { let m = if cx.thorough { max + 1 } else { max }; 1 + r.below(m) }

/// Everything at once.
pub fn soup(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let f = *r.pick(&[Flavor::Plain, Flavor::Ns, Flavor::Lang]);
    let d = 1 + r.below(4);
    drive(cx, r, f, 25, 12, &mut |g, _| g.any(d))
}

// ---------------------------------------------------------------------
// C14: location steps

pub fn c14(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 80) { return wide(cx, r, 0); }
    let f = *r.pick(&[Flavor::Plain, Flavor::Ns, Flavor::Plain, Flavor::Kw]);
    let big = if r.chance(1, 8) { 60 } else { 20 };
    let bn = match bench(cx, r, f, big) { Ok(b) => b, Err(e) => return violation(e) };
    let n = bn.d.nodes.len();
    for ctx in 0..n {
        if n > 24 && !r.chance(1, 4.max(n / 10)) { continue; }
        for a in AXES {
            if !r.chance(1, 2) { continue; }
            let e = telling(r, &bn, ctx, &mut |r| {
                let mut g = G::new(r, &bn.d);
                let t = g.ntest(a);
                let st = step(a, t);
                match g.r.below(10) {
                    0 => b(Op::Slash, E::Root, st),
                    1 => b(Op::DSlash, E::Root, st),
                    2 => b(Op::DSlash, E::Ctx, st),
                    3 => b(Op::Slash, E::DotDot, st),
                    4 => { let a2 = *g.r.pick(&AXES); let t2 = g.ntest(a2); b(Op::Slash, st, step(a2, t2)) }
                    _ => st,
                }
            });
            judge(cx, r, &bn, &e, ctx)?;
            // the abbreviated and the long form agree
            if r.chance(1, 4) {
                let short = render(&e, r, Style { paren: Paren::Min, space: Space::Single, abbrev: true, any_quote: false });
                let long = render(&e, r, Style { paren: Paren::Min, space: Space::Single, abbrev: false, any_quote: false });
                let long = long.replace("//", "/descendant-or-self::node()/");
                let long = if long.starts_with("./") { format!("self::node(){}", &long[1..]) } else { long };
                let long = if long.starts_with("../") { format!("parent::node(){}", &long[2..]) } else { long };
                if long != short {
                    cx.note(&format!("{}\n  and {}\n  on node {} of {}", short, long, ctx, bn.text));
                    let x = bn.d.ptrs[ctx].get_nodeset(&short).map_err(|e| e.to_string());
                    let y = bn.d.ptrs[ctx].get_nodeset(&long).map_err(|e| e.to_string());
                    cx.count("abbreviated and long form");
                    if x != y { return violation(format!("{} and {} differ on node {} of {}", short, long, ctx, bn.text)); }
                }
            }
        }
        // a context that is not a node has no axes
        if r.chance(1, 12) {
            let st = { let mut g = G::new(r, &bn.d); g.astep(0, 0) };
            let e = b(Op::Bang, if r.chance(1, 2) { int(3) } else { s("a") }, st);
            cx.count("step on an atomic item");
            judge(cx, r, &bn, &e, ctx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------
// C15: order and duplicates in path results

/// Hundreds of siblings, seen from one of them or as a whole: simple
/// expressions, so that the reference evaluator can follow.
fn wide(cx: &mut Cx, r: &mut Rng, kind: usize) -> Outcome {
    let n = 250 + if r.chance(1, 3) { r.below(1200) } else { r.below(120) };
    let mut t = String::from("<r>");
    for i in 0..n {
        match r.below(8) {
            0 => t.push_str("<!--c-->"),
            1 => t.push_str("<?p q?>"),
            2 => t.push_str("<b><c/></b>"),
            3 => t.push_str(&format!("<b id='{}'/>x", i)),
            4 => t.push_str(&format!("<a id='{}' k='{}'/>", i, i % 7)),
            _ => t.push_str(r.s(&["<a/>", "<b/>", "<c/>"]).as_str()),
        }
    }
    t.push_str("</r>");
    let bn = match bench_of(cx, &t) { Ok(b) => b, Err(e) => return violation(e) };
    let m = bn.d.nodes.len();
    for _ in 0..8 {
        let ctx = match r.below(4) { 0 => m - 1 - r.below(10), 1 => 1 + r.below(10), _ => r.below(m) };
        let mut g = G::new(r, &bn.d);
        let test = |g: &mut G| match g.r.below(5) { 0 => Test::Node, 1 => Test::Star, 2 => name("a"), 3 => name("b"), _ => name("c") };
        let down = |g: &mut G| { let t = test(g); match g.r.below(4) { 0 => b(Op::DSlash, E::Root, step(Axis::Child, t)), 1 => b(Op::Slash, b(Op::DSlash, E::Root, step(Axis::Child, name("r"))), step(Axis::Child, t)), 2 => b(Op::DSlash, E::Root, step(Axis::Attribute, Test::Star)), _ => b(Op::Slash, E::Root, step(Axis::Descendant, t)) } };
        let place = |g: &mut G| { let k = match g.r.below(4) { 0 => int(g.r.range(1, 5)), 1 => int(g.r.range(1, n as i64 + 3)), 2 => call("last", vec![]), _ => int(250 + g.r.range(-2, 15)) }; match g.r.below(6) { 0 => b(Op::GLe, call("position", vec![]), k), 1 => b(Op::GGt, call("position", vec![]), k), 2 => b(Op::GEq, b(Op::Mod, call("position", vec![]), int(g.r.range(2, 100))), int(1)), 3 => b(Op::Sub, call("last", vec![]), int(g.r.range(0, n as i64))), _ => k } };
        let e = match kind {
            0 => {
                let a = *g.r.pick(&[Axis::FollowingSibling, Axis::PrecedingSibling, Axis::Following, Axis::Preceding, Axis::Child, Axis::Descendant, Axis::DescendantOrSelf]);
                let t = test(&mut g);
                match g.r.below(4) { 0 => b(Op::Slash, E::DotDot, step(Axis::Child, t)), 1 => b(Op::Slash, step(a, t), step(*g.r.pick(&[Axis::Parent, Axis::Attribute, Axis::Child]), Test::Node)), _ => step(a, t) }
            }
            1 => {
                let e = down(&mut g);
                let e = if g.ch(1, 2) { call("reverse", vec![e]) } else { e };
                match g.r.below(5) {
                    0 => b(Op::Bang, e, call("position", vec![])),
                    1 => b(Op::Slash, e, call("last", vec![])),
                    2 => b(Op::Slash, e, E::DotDot),
                    3 => { let t = test(&mut g); b(Op::Slash, E::Seq(vec![e, E::Ctx]), step(Axis::DescendantOrSelf, t)) }
                    _ => b(Op::Bang, e, call("name", vec![])),
                }
            }
            2 => {
                let p = place(&mut g);
                match g.r.below(3) {
                    0 => { let a = *g.r.pick(&[Axis::FollowingSibling, Axis::PrecedingSibling, Axis::Following, Axis::Preceding]); let t = test(&mut g); let mut ps = vec![p]; while ps.len() < 3 && g.ch(1, 2) { let q = place(&mut g); ps.push(q); } E::Step(a, t, ps) }
                    1 => { let e = down(&mut g); filter(E::Seq(vec![e]), p) }
                    _ => { let e = down(&mut g); filter(call("reverse", vec![e]), p) }
                }
            }
            _ => {
                let mut e = down(&mut g);
                for _ in 0..1 + g.r.below(2) {
                    let mut y = if g.ch(1, 2) { let a = *g.r.pick(&[Axis::FollowingSibling, Axis::PrecedingSibling]); let t = test(&mut g); step(a, t) } else { down(&mut g) };
                    if g.ch(1, 3) { let p = place(&mut g); y = filter(E::Seq(vec![y]), p); }
                    if g.ch(1, 4) { y = call("reverse", vec![y]); }
                    let op = *g.r.pick(&[Op::Union, Op::Intersect, Op::Except]);
                    e = if g.ch(1, 2) { b(op, e, y) } else { b(op, y, e) };
                }
                if g.ch(1, 4) { call("count", vec![e]) } else { e }
            }
        };
        cx.count("expression in a document of hundreds of siblings");
        judge(cx, r, &bn, &e, ctx)?;
    }
    Ok(())
}

pub fn c15(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 120) { return wide(cx, r, 1); }
    let f = *r.pick(&[Flavor::Plain, Flavor::Plain, Flavor::Ns]);
    drive(cx, r, f, 30, 14, &mut |g, _| {
        let k = g.r.below(12);
        match k {
            0..=4 => {
                // many ways to the same nodes
                let mut e = match g.r.below(4) {
                    0 => b(Op::DSlash, E::Root, step(Axis::Child, Test::Node)),
                    1 => shuffled(g),
                    _ => g.astep(0, 0),
                };
                for _ in 0..1 + g.r.few(4) {
                    let st = g.astep(1, 0);
                    e = b(if g.ch(1, 3) { Op::DSlash } else { Op::Slash }, e, st);
                }
                e
            }
            5 | 6 => {
                // the last step yields atomic values
                let e = if g.ch(1, 2) { shuffled(g) } else { g.nodes(1) };
                let f = match g.r.below(6) {
                    0 => call("name", vec![]), 1 => call("string", vec![]), 2 => call("position", vec![]),
                    3 => call("count", vec![step(Axis::Child, Test::Node)]),
                    4 => E::Seq(vec![call("position", vec![]), call("last", vec![])]),
                    _ => g.within(Foc::Node, |g| g.strv(1)),
                };
                b(Op::Slash, e, f)
            }
            7 | 8 => {
                let e = shuffled(g);
                let x = g.within(Foc::Node, |g| if g.ch(1, 2) { g.astep(1, 0) } else { g.nodes(1) });
                b(Op::Bang, e, x)
            }
            9 => {
                // nodes and other items mixed, or no nodes on the left
                let x = if g.ch(1, 2) { E::Seq(vec![shuffled(g), int(1)]) } else { g.ints(1) };
                let st = g.astep(0, 0);
                b(Op::Slash, x, st)
            }
            10 => {
                let e = shuffled(g);
                let c = g.within(Foc::Node, |g| g.pred(0));
                let (x, y) = (g.strv(0), g.within(Foc::Node, |g| g.astep(0, 0)));
                b(Op::Slash, e, E::If(Box::new(call("boolean", vec![c])), Box::new(x), Box::new(y)))
            }
            _ => { let l = g.nodes(2); let x = g.within(Foc::Node, |g| g.nodes(2)); b(Op::Slash, l, x) }
        }
    })
}

/// Nodes in a random order, some of them several times.
pub fn shuffled(g: &mut G) -> E {
    let n = 1 + g.r.few(4);
    let mut v = vec![];
    for _ in 0..n { let x = match g.r.below(4) { 0 => g.path(1), 1 => call("reverse", vec![g.path(1)]), 2 => g.node1(1), _ => pick_node(g) }; v.push(x); }
    if g.ch(1, 3) { let x = v[0].clone(); v.push(x); }
    E::Seq(v)
}
/// A random node of the tree, by position.
pub fn pick_node(g: &mut G) -> E {
    let n = g.d.nodes.len() as i64;
    let k = g.r.range(1, n.max(1));
    filter(E::Seq(vec![b(Op::DSlash, E::Root, step(Axis::SelfA, Test::Node))]), int(k))
}

// ---------------------------------------------------------------------
// C16: predicates

pub fn c16(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 120) { return wide(cx, r, 2); }
    let f = *r.pick(&[Flavor::Plain, Flavor::Plain, Flavor::Lang]);
    drive(cx, r, f, 30, 14, &mut |g, _| {
        match g.r.below(12) {
            0..=4 => {
                // successive predicates on one step, reverse axes included
                let a = if g.ch(1, 2) { *g.r.pick(&[Axis::Ancestor, Axis::AncestorOrSelf, Axis::Preceding, Axis::PrecedingSibling, Axis::Parent]) } else { g.axis() };
                let t = if g.ch(1, 2) { if a == Axis::Attribute || g.ch(1, 2) { Test::Node } else { Test::Star } } else { g.ntest(a) };
                let k = 1 + g.r.few(3);
                let ps = (0..k).map(|_| g.within(Foc::Node, |g| numish_pred(g))).collect();
                let st = E::Step(a, t, ps);
                match g.r.below(4) { 0 => { let l = g.path(1); b(Op::Slash, l, st) } 1 => b(Op::DSlash, E::Root, st), _ => st }
            }
            5 | 6 => {
                // the same in parentheses counts in sequence order
                let a = if g.ch(1, 2) { *g.r.pick(&[Axis::Ancestor, Axis::Preceding, Axis::PrecedingSibling]) } else { g.axis() };
                let t = g.ntest(a);
                let mut e = E::Seq(vec![E::Step(a, t, vec![])]);
                for _ in 0..1 + g.r.few(3) { let p = g.within(Foc::Node, |g| numish_pred(g)); e = filter(e, p); }
                e
            }
            7 | 8 => {
                let mut e = E::Seq(vec![if g.ch(1, 16) { g.long() } else { g.seq(1) }]);
                for _ in 0..1 + g.r.few(3) { let p = g.within(Foc::Mixed, |g| { let k = g.r.below(5); if k == 0 { g.boolv(1) } else if k == 1 { g.plain(0) } else { posit(g) } }); e = filter(e, p); }
                e
            }
            9 => { let x = g.seq(1); let y = g.within(Foc::Mixed, |g| E::Seq(vec![posit(g), call("last", vec![])])); b(Op::Bang, x, y) }
            10 => {
                // a nested predicate has its own position
                let inner = g.within(Foc::Node, |g| g.astep(2, 0));
                let outer = b(Op::And, b(Op::GEq, call("position", vec![]), int(g.r.range(1, 3))), inner.clone());
                let p = if g.ch(1, 2) { outer } else { b(Op::GEq, call("count", vec![inner]), call("position", vec![])) };
                let a = g.axis();
                let t = g.ntest(a);
                E::Step(a, t, vec![p, call("last", vec![])])
            }
            _ => { let l = g.nodes(1); let p = g.within(Foc::Node, |g| g.pred(2)); filter(E::Seq(vec![l]), p) }
        }
    })
}
fn posit(g: &mut G) -> E {
    let o = *g.r.pick(&[Op::GEq, Op::GNe, Op::GLt, Op::GLe, Op::GGt, Op::GGe, Op::Eq, Op::Ne, Op::Lt]);
    match g.r.below(9) {
        0 => int(g.r.range(-1, 5)), 1 => call("last", vec![]), 2 => b(Op::Sub, call("last", vec![]), int(g.r.range(0, 3))),
        3 => b(o, call("position", vec![]), int(g.r.range(0, 4))), 4 => b(o, call("position", vec![]), call("last", vec![])),
        5 => b(Op::GEq, b(Op::Mod, call("position", vec![]), int(2)), int(g.r.range(0, 1))),
        6 => b(*g.r.pick(&[Op::Div, Op::Idiv]), b(Op::Add, call("last", vec![]), int(1)), int(2)),
        7 => E::Dec(g.r.s(&["1.0", "2.0", "1.5", "0.5"])), _ => E::Dbl(g.r.s(&["1e0", "2e0", "1.5e0", "0.3e1"])),
    }
}
fn numish_pred(g: &mut G) -> E { if g.ch(2, 3) { posit(g) } else { g.pred(1) } }

// ---------------------------------------------------------------------
// C17: set operations

pub fn c17(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 120) { return wide(cx, r, 3); }
    let f = *r.pick(&[Flavor::Plain, Flavor::Plain, Flavor::Ns]);
    drive(cx, r, f, 25, 14, &mut |g, _| {
        let mut e = set_arg(g);
        for _ in 0..1 + g.r.few(4) {
            let op = *g.r.pick(&[Op::Union, Op::Intersect, Op::Except]);
            let y = set_arg(g);
            e = if g.ch(1, 2) { b(op, e, y) } else { b(op, y, e) };
        }
        if g.ch(1, 30) { let y = g.plain(1); let op = *g.r.pick(&[Op::Union, Op::Intersect, Op::Except]); e = if g.ch(1, 2) { b(op, e, y) } else { b(op, y, e) }; }
        match g.r.below(8) { 0 => call("count", vec![e]), 1 => { let p = g.within(Foc::Node, |g| g.pred(0)); filter(E::Seq(vec![e]), p) } 2 => b(Op::Slash, e, call("name", vec![])), _ => e }
    })
}
fn set_arg(g: &mut G) -> E {
    match g.r.below(8) {
        0 | 1 => shuffled(g),
        2 => { let a = g.axis(); let t = if g.ch(1, 2) { Test::Node } else { g.ntest(a) }; b(Op::DSlash, E::Root, step(a, t)) }
        3 => b(Op::DSlash, E::Root, step(Axis::Attribute, Test::Star)),
        4 => b(Op::DSlash, E::Root, step(Axis::Child, Test::Node)),
        5 => E::Empty,
        6 => pick_node(g),
        _ => g.nodes(1),
    }
}

// ---------------------------------------------------------------------
// C18: arithmetic

pub const INTS: &[i64] = &[0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 12, 100, -100, 255, 1000000007, 2147483647, -2147483648, 4294967296, 3037000499, 3037000500, -3037000500, 9007199254740991, 9007199254740993, 4611686018427387904, -4611686018427387904, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1];

pub fn a_number(g: &mut G) -> E {
    let e = match g.r.below(14) {
        0..=3 => int(*g.r.pick(INTS)),
        4 => int(g.r.range(-20, 20)),
        5 => int(g.r.next() as i64),
        6 | 7 => E::Dec(g.r.s(DECS)),
        8 => { let k = g.r.range(-1_000_000, 1_000_000); let v = k as f64 / *g.r.pick(&[2.0, 4.0, 8.0, 10.0, 100.0, 1000.0]); let t = format!("{}", v.abs()); let t = if t.contains('.') { t } else { t + ".0" }; if v < 0.0 { E::Neg(Box::new(E::Dec(t))) } else { E::Dec(t) } }
        9 | 10 => g.dbl_lit(),
        11 => random_double(g),
        12 => E::Dec("9223372036854775808.0".into()),
        _ => E::Dec(g.r.s(&["0.1", "0.2", "0.3", "99999999999999999999.5", "0.000001", "4.35", "2.675"])),
    };
    if g.ch(1, 8) { if g.ch(1, 4) { E::Plus(Box::new(e)) } else { E::Neg(Box::new(e)) } } else { e }
}
/// A double with random bits.
pub fn random_double(g: &mut G) -> E {
    let v = loop {
        let v = match g.r.below(3) { 0 => f64::from_bits(g.r.next()), 1 => g.r.range(-1000, 1000) as f64 / 8.0, _ => g.r.range(-100_000, 100_000) as f64 * 10f64.powi(g.r.range(-12, 12) as i32) };
        if v.is_finite() { break v; }
    };
    let t = format!("{:e}", v.abs());
    if v.is_sign_negative() { E::Neg(Box::new(E::Dbl(t))) } else { E::Dbl(t) }
}
const ARITH: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Idiv, Op::Mod];

pub fn c18(cx: &mut Cx, r: &mut Rng) -> Outcome {
    drive(cx, r, Flavor::Plain, 4, 60, &mut |g, _| {
        let operand = |g: &mut G| match g.r.below(24) { 0 => E::Empty, 1 => g.str_lit(), 2 => call("true", vec![]), 3 => if g.ch(1, 2) { g.ints(0) } else { g.map(0) }, 4 => g.num(1), 5 => g.int(1), _ => a_number(g) };
        let mut e = operand(g);
        for _ in 0..1 + g.r.few(3) {
            let op = *g.r.pick(ARITH);
            let y = operand(g);
            e = if g.ch(2, 3) { b(op, e, y) } else { b(op, y, e) };
            if g.ch(1, 8) { e = if g.ch(1, 2) { E::Neg(Box::new(e)) } else { E::Plus(Box::new(e)) }; }
        }
        e
    })
}

// ---------------------------------------------------------------------
// C19: comparisons

pub fn a_value(g: &mut G) -> E {
    match g.r.below(12) {
        0..=2 => a_number(g),
        3 => int(g.r.range(-3, 5)),
        4 => E::Dec(g.r.s(&["1.0", "2.0", "2.5", "0.0"])),
        5 => E::Dbl(g.r.s(&["1e0", "2e0", "2.5e0", "0e0"])),
        6..=8 => g.str_lit(),
        9 => E::Str(g.r.s(&["1", "2.5", "true", "NaN", "\u{10FFFF}", "\u{FFFD}", "Z", "a", "z", "é"])),
        10 => g.boolv(0),
        _ => call("number", vec![s("x")]),
    }
}
const VOPS: &[Op] = &[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
const GOPS: &[Op] = &[Op::GEq, Op::GNe, Op::GLt, Op::GLe, Op::GGt, Op::GGe];

pub fn c19(cx: &mut Cx, r: &mut Rng) -> Outcome {
    drive(cx, r, Flavor::Plain, 12, 40, &mut |g, _| {
        let same_kind = |g: &mut G| -> (E, E) {
            match g.r.below(4) { 0 | 1 => (a_number(g), a_number(g)), 2 => (g.str_lit(), g.str_lit()), _ => (g.boolv(0), g.boolv(0)) }
        };
        match g.r.below(10) {
            0..=2 => { let op = *g.r.pick(VOPS); let (x, y) = same_kind(g); b(op, x, y) }
            3 => { let op = *g.r.pick(VOPS); let (x, y) = (a_value(g), a_value(g)); b(op, x, y) }
            4 => { let op = *g.r.pick(VOPS); let x = a_value(g); let y = match g.r.below(4) { 0 => E::Empty, 1 => g.node1(1), 2 => g.ints(0), _ => g.map(0) }; if g.ch(1, 2) { b(op, x, y) } else { b(op, y, x) } }
            5 | 6 => {
                let op = *g.r.pick(GOPS);
                let k = g.r.below(3);
                let side = |g: &mut G| { let n = g.r.many(5); let v: Vec<E> = (0..n).map(|_| match k { 0 => a_number(g), 1 => g.str_lit(), _ => a_value(g) }).collect(); E::Seq2(v) };
                let (x, y) = (side(g), side(g));
                b(op, x, y)
            }
            7 if g.ch(1, 4) => {
                // hundreds of items of which perhaps one, somewhere, decides
                let n = 30 + g.r.below(400) as i64;
                let at = match g.r.below(3) { 0 => n, 1 => 0, _ => g.r.range(0, n) };
                let mut v = vec![];
                if at > 0 { v.push(b(Op::To, int(1), int(at))); }
                if g.ch(2, 3) { v.push(match g.r.below(4) { 0 => int(-7), 1 => int(5000), 2 => a_value(g), _ => E::Empty }); }
                if at < n { v.push(b(Op::To, int(at + 1), int(n))); }
                let x = E::Seq2(v);
                let y = match g.r.below(6) { 0 => int(-7), 1 => int(5000), 2 => int(g.r.range(n - 3, n + 3)), 3 => E::Seq2(vec![int(-7), int(-8)]), 4 => int(g.r.range(0, 3)), _ => a_value(g) };
                let op = *g.r.pick(GOPS);
                if g.ch(1, 2) { b(op, x, y) } else { b(op, y, x) }
            }
            7 => { let op = *g.r.pick(GOPS); let x = g.nodes(1); let y = if g.ch(1, 2) { g.nodes(1) } else { g.value_lit() }; if g.ch(1, 2) { b(op, x, y) } else { b(op, y, x) } }
            8 => { let op = *g.r.pick(GOPS); let (x, y) = same_kind(g); b(op, x, y) }
            _ => {
                // small integer sequences: all pairs matter
                let op = *g.r.pick(GOPS);
                let side = |g: &mut G| { let n = g.r.many(4); E::Seq2((0..n).map(|_| int(g.r.range(0, 4))).collect()) };
                let (x, y) = (side(g), side(g));
                b(op, x, y)
            }
        }
    })
}

// ---------------------------------------------------------------------
// C20: truth values

/// An expression that fails when it is evaluated.
pub fn failing(g: &mut G) -> E {
    match g.r.below(6) {
        0 => b(Op::Idiv, int(1), int(0)), 1 => b(Op::Add, s("a"), int(1)), 2 => call("exactly-one", vec![E::Empty]),
        3 => E::Cast(Box::new(s("x")), Atom::Integer, false), 4 => b(Op::Slash, int(1), step(Axis::Child, Test::Star)),
        _ => b(Op::Lt, int(1), s("a")),
    }
}
pub fn truthy(g: &mut G) -> E {
    match g.r.below(16) {
        0 => E::Empty, 1 => g.boolv(1), 2 => g.str_lit(), 3 => E::Str(String::new()), 4 => a_number(g),
        5 => E::Dec("0.0".into()), 6 => E::Dbl("0e0".into()), 7 => call("number", vec![s("x")]), 8 => int(0),
        9 => g.nodes(1), 10 => { let n = g.nodes(0); let x = g.plain(0); E::Seq(vec![n, x]) }
        11 => E::Seq(vec![g.plain(0), g.plain(0)]), 12 => if g.ch(1, 2) { g.map(0) } else { g.arr(0) },
        13 => b(Op::Div, E::Dbl("1e0".into()), int(0)), 14 => E::FRef("true".into(), 0), _ => g.boolv(0),
    }
}
pub fn c20(cx: &mut Cx, r: &mut Rng) -> Outcome {
    drive(cx, r, Flavor::Plain, 10, 40, &mut |g, cx| {
        let x = truthy(g);
        match g.r.below(12) {
            0 => call("boolean", vec![x]),
            1 => call("not", vec![x]),
            2 => { let (t, f) = (g.plain(0), g.plain(0)); E::If(Box::new(x), Box::new(t), Box::new(f)) }
            3 => { let y = truthy(g); b(Op::And, x, y) }
            4 => { let y = truthy(g); b(Op::Or, x, y) }
            5 => { cx.count("failing right operand"); let y = failing(g); let c = g.boolv(1); b(*g.r.pick(&[Op::And, Op::Or]), c, y) }
            6 => {
                cx.count("failing branch");
                let (t, f) = (failing(g), g.plain(0));
                if g.ch(1, 2) { E::If(Box::new(x), Box::new(t), Box::new(f)) } else { E::If(Box::new(x), Box::new(f), Box::new(t)) }
            }
            7 => { let src = g.seq(0); filter(E::Seq(vec![src]), call("boolean", vec![x])) }
            8 => { let (y, z) = (truthy(g), truthy(g)); let (o, p) = (*g.r.pick(&[Op::And, Op::Or]), *g.r.pick(&[Op::And, Op::Or])); b(o, x, b(p, y, z)) }
            9 => { let src = g.nodes(0); filter(E::Seq(vec![src]), match x { E::Int(_) | E::Dec(_) | E::Dbl(_) => call("not", vec![x]), x => x }) }
            10 => { let every = g.ch(1, 2); let dom = g.ints(0); E::Quant(every, vec![("x".into(), dom)], Box::new(x)) }
            _ => { let f = g.nodes(1); E::If(Box::new(E::If(Box::new(x), Box::new(f), Box::new(E::Empty))), Box::new(s("t")), Box::new(s("f"))) }
        }
    })
}

// ---------------------------------------------------------------------
// C21: sequence functions

pub fn a_position(g: &mut G) -> E {
    match g.r.below(8) {
        0..=3 => { let k = g.r.range(-3, 8); if g.ch(1, 12) { let k = g.wrapped(k); int(k) } else { int(k) } }
        4 => { let h = if g.ch(1, 3) { 45 } else { 8 }; int(g.r.range(-3, h)) }
        5 => int(*g.r.pick(INTS)),
        6 => call("count", vec![g.nodes(0)]),
        _ => g.int(0),
    }
}
/// A length or start that need not be an integer.
pub fn a_place(g: &mut G) -> E {
    match g.r.below(8) {
        0 | 1 => { let k = g.r.range(-3, 8); if g.ch(1, 8) { let k = g.wrapped(k); int(k) } else { int(k) } }
        2 => { let h = if g.ch(1, 3) { 45 } else { 8 }; int(g.r.range(-3, h)) }
        3 => { let v = g.r.range(-6, 16) as f64 / 2.0; lit_dec(v) }
        4 => { let v = g.r.range(-12, 30) as f64 / 4.0; let t = format!("{:e}", v.abs()); if v < 0.0 { E::Neg(Box::new(E::Dbl(t))) } else { E::Dbl(t) } }
        5 => a_number(g),
        6 => match g.r.below(3) { 0 => b(Op::Div, E::Dbl("1e0".into()), int(0)), 1 => b(Op::Div, E::Neg(Box::new(E::Dbl("1e0".into()))), int(0)), _ => call("number", vec![s("x")]) },
        _ => int(*g.r.pick(INTS)),
    }
}
fn lit_dec(v: f64) -> E { let t = format!("{}", v.abs()); let t = if t.contains('.') { t } else { t + ".0" }; if v < 0.0 { E::Neg(Box::new(E::Dec(t))) } else { E::Dec(t) } }
fn some_items(g: &mut G) -> E {
    if g.ch(1, 24) { return g.long(); }
    match g.r.below(8) { 0 => E::Empty, 1 => shuffled(g), 2 => g.ints(1), 3 => g.strs(1), 4 => g.nodes(1), 5 => a_value(g), _ => { let n = g.r.many(6); E::Seq2((0..n).map(|_| g.plain(0)).collect()) } }
}

/// Sequences of thousands of integers: what comes out is known by arithmetic.
fn long_ranges(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let d = amxml::dom::new_document("<a/>").unwrap();
    for _ in 0..4 {
        let most = if r.chance(1, 4) { 70_000 } else { 5_000 };
        let n = 500 + r.below(most) as i64;
        let a = match r.below(4) { 0 => 1, 1 => -n / 2, 2 => i64::MAX - n - r.range(0, 5), _ => r.range(-1000, 1000) };
        let z = a + n - 1;
        let k = match r.below(3) { 0 => n - r.range(0, 5), 1 => r.range(1, 10), _ => r.range(1, n) };
        let lit = |i: i64| if i < 0 { format!("(-{})", i.unsigned_abs()) } else { i.to_string() };
        let x = format!("({} to {})", lit(a), lit(z));
        let (q, want) = match r.below(16) {
            0 => (format!("count({})", x), n.to_string()),
            1 => (format!("{}[last()]", x), z.to_string()),
            2 => (format!("{}[{}]", x, k), (a + k - 1).to_string()),
            3 => (format!("reverse({})[{}]", x, k), (z - k + 1).to_string()),
            4 => (format!("count(tail({}))", x), (n - 1).to_string()),
            5 => (format!("count(remove({}, {}))", x, k), (n - 1).to_string()),
            6 => (format!("remove({}, {})[last()]", x, k), (if k == n { z - 1 } else { z }).to_string()),
            7 => (format!("insert-before({}, {}, 'x')[{}]", x, k, k + 1), (a + k - 1).to_string()),
            8 => (format!("count(subsequence({}, {}))", x, k), (n - k + 1).to_string()),
            9 => { let m = r.range(1, n); (format!("count(subsequence({}, {}, {}))", x, k, m), m.min(n - k + 1).to_string()) }
            10 => (format!("index-of({}, {})", x, lit(a + k - 1)), k.to_string()),
            11 => (format!("count(({}, {}))", x, x), (2 * n).to_string()),
            12 => (format!("string-length(string-join({} ! 'x'))", x), n.to_string()),
            13 => (format!("count(for $x in {} return ($x, 'y'))", x), (2 * n).to_string()),
            14 => (format!("head(reverse({}))", x), z.to_string()),
            _ => (format!("count({}[. mod 2 = 0])", x), { let f = |v: i64| v.div_euclid(2); (f(z) - f(a - 1)).to_string() }),
        };
        cx.note(&q);
        cx.eval(Some(&q));
        cx.count("sequence of thousands of integers");
        let got = match d.eval_xpath(&q) { Ok(s) => s.to_string(), Err(e) => format!("error: {}", e.to_string()) };
        if got != want { return violation(format!("{} gives {}, expected {}", q, got, want)); }
    }
    Ok(())
}

pub fn c21(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 100) { return long_ranges(cx, r); }
    drive(cx, r, Flavor::Plain, 15, 30, &mut |g, _| {
        let mut x = some_items(g);
        for _ in 0..1 + g.r.below(3) {
            x = match g.r.below(16) {
                0 => call("head", vec![x]), 1 => call("tail", vec![x]), 2 => call("reverse", vec![x]),
                3 | 4 => { let p = if g.ch(1, 12) { a_place(g) } else { a_position(g) }; let y = some_items(g); call("insert-before", vec![x, p, y]) }
                5 | 6 => { let p = if g.ch(1, 12) { a_place(g) } else { a_position(g) }; call("remove", vec![x, p]) }
                7 | 8 => { let p = a_place(g); let mut v = vec![x, p]; if g.ch(2, 3) { v.push(a_place(g)); } call("subsequence", v) }
                9 => { let y = match g.r.below(4) { 0 => g.int(0), 1 => g.value_lit(), _ => a_value(g) }; call("index-of", vec![x, y]) }
                10 => call(*g.r.pick(&["empty", "exists"]), vec![x]),
                11 => call(*g.r.pick(&["zero-or-one", "one-or-more", "exactly-one"]), vec![x]),
                12 => { let y = some_items(g); E::Seq(vec![x, y]) }
                13 => { let y = some_items(g); E::Seq(vec![E::Seq(vec![y, E::Empty]), x]) }
                14 => { let (l, h) = (int(g.r.range(-5, 5)), { let h = if g.ch(1, 16) { 150 } else { 8 }; int(g.r.range(-5, h)) }); let t = match g.r.below(10) { 0 => b(Op::To, E::Empty, h), 1 => b(Op::To, l, E::Empty), 2 => b(Op::To, l, s("3")), 3 => b(Op::To, E::Dec("1.5".into()), h), 4 => { let base = *g.r.pick(&[i64::MAX - 2, i64::MIN, 1 << 40]); let k = g.r.range(0, 3); b(Op::To, int(base), if base == i64::MIN { b(Op::Add, int(base), int(k)) } else { int(base.saturating_add(k)) }) } _ => b(Op::To, l, h) }; E::Seq(vec![t, x]) }
                _ => { let p = a_position(g); filter(E::Seq(vec![x]), match p { E::Call(..) => p, p => p }) }
            };
        }
        x
    })
}

// ---------------------------------------------------------------------
// C22: aggregates

pub fn c22(cx: &mut Cx, r: &mut Rng) -> Outcome {
    drive(cx, r, Flavor::Plain, 20, 30, &mut |g, _| {
        let n = g.r.many(6);
        let items = match g.r.below(9) {
            0 => E::Empty,
            1 => E::Seq2((0..n).map(|_| int(g.r.range(-9, 9))).collect()),
            2 => E::Seq2((0..n).map(|_| int(*g.r.pick(INTS))).collect()),
            3 => E::Seq2((0..n).map(|_| a_number(g)).collect()),
            4 => E::Seq2((0..n).map(|_| g.str_lit()).collect()),
            5 => E::Seq2((0..n).map(|_| g.plain(0)).collect()),
            6 => g.nodes(2),
            7 => if g.ch(1, 4) { g.long() } else { g.ints(2) },
            _ => { let mut v: Vec<E> = (0..n).map(|_| lit_dec(g.r.range(-40, 40) as f64 / 4.0)).collect(); v.push(int(g.r.range(-9, 9))); E::Seq(v) }
        };
        match g.r.below(10) {
            0 | 1 => call("count", vec![items]),
            2 | 3 => call("sum", vec![items]),
            4 => { let z = match g.r.below(4) { 0 => E::Empty, 1 => s("none"), 2 => lit_dec(0.5), _ => int(7) }; call("sum", vec![items, z]) }
            5 | 6 => call("avg", vec![items]),
            7 => call("max", vec![items]),
            8 => call("min", vec![items]),
            _ => b(Op::Sub, call("max", vec![items.clone()]), call("min", vec![items])),
        }
    })
}

// ---------------------------------------------------------------------
// C23: strings

pub fn a_string(g: &mut G) -> E {
    match g.r.below(8) {
        0 | 1 => E::Str(g.r.s(WORDS)), 2 => E::Str(g.r.s(STRS)),
        3 => { let n = g.r.many(8); let mut t = String::new(); for _ in 0..n { t.push(*g.r.pick(&['a', 'b', 'c', 'A', 'é', '日', '😀', ' ', 'ß', 'x', 'Ω', '\u{301}'])); } E::Str(t) }
        4 => { let n = 1 + g.r.below(3); let mut t = String::new(); for _ in 0..n { t.push(crate::model::wild_char(g.r)); } E::Str(t.replace('\0', "")) }
        5 if g.foc == Foc::Node => call("string", vec![]),
        6 => g.strv(1),
        _ => E::Str(g.r.s(&["abab", "aaa", "ba", "", "abcabc", "日日本", "😀😀", "cab"])),
    }
}
/// A string of hundreds or thousands of characters, what is looked for at some
/// place in it, and what is like it but for one character.
fn long_string(g: &mut G) -> E {
    let u = g.r.s(&["a", "ab", "xyz", "é", "日本", "😀", " x", "aaab", "<&", "abcdefghijklmnopqrstuvwxyz"]);
    let n = match g.r.below(4) { 0 => 20 + g.r.below(100), 1 => 1000 + g.r.below(4000), _ => 200 + g.r.below(800) };
    let mut t: String = u.repeat(n / u.len() + 1);
    let mark = g.r.s(&["", "Q", "aQ", "éb", "日", "X😀", "ab", "zz"]);
    let k = match g.r.below(4) { 0 => 0, 1 | 2 => t.chars().count(), _ => g.r.below(t.chars().count() + 1) };
    let at = t.char_indices().nth(k).map_or(t.len(), |(i, _)| i);
    t.insert_str(at, &mark);
    E::Str(t)
}
fn on_long(g: &mut G) -> E {
    let x = long_string(g);
    let t = match &x { E::Str(t) => t.clone(), _ => String::new() };
    let len = t.chars().count();
    let part = |g: &mut G| -> E {
        let i = if g.ch(1, 2) { len - g.r.below(20.min(len)) - 1 } else { g.r.below(len) };
        let n = if g.ch(1, 3) { g.r.below(300) } else { g.r.below(6) };
        let mut p: String = t.chars().skip(i).take(n).collect();
        if g.ch(1, 4) { p.push_str(&g.r.s(&["Q", "a", "é"])); }
        if g.ch(1, 6) { p = t.clone(); if g.ch(1, 2) { p.pop(); p.push('!'); } }
        E::Str(match g.r.below(3) { 0 => g.r.s(&["Q", "aQ", "éb", "日", "X😀", "ab", "zz", ""]), _ => p })
    };
    let place = |g: &mut G| match g.r.below(3) { 0 => a_place(g), 1 => int(g.r.range(-2, len as i64 + 2)), _ => int(len as i64 - g.r.range(-2, 20)) };
    match g.r.below(14) {
        0 | 1 => { let y = part(g); call("contains", vec![x, y]) }
        2 => { let y = part(g); call("starts-with", vec![x, y]) }
        3 => { let y = part(g); call("ends-with", vec![x, y]) }
        4 => { let y = part(g); call("substring-before", vec![x, y]) }
        5 => { let y = part(g); call("substring-after", vec![x, y]) }
        6 => { let y = part(g); call("compare", vec![x, y]) }
        7 => { let y = part(g); let z = part(g); call("translate", vec![x, y, z]) }
        8 | 9 => { let mut v = vec![x, place(g)]; if g.ch(2, 3) { v.push(place(g)); } call("substring", v) }
        10 => call("string-length", vec![x]),
        11 => { let f = *g.r.pick(&["upper-case", "lower-case"]); let y = part(g); call("concat", vec![call(f, vec![x]), y]) }
        12 => { let y = part(g); call("codepoint-equal", vec![x, y]) }
        _ => call("codepoints-to-string", vec![call("string-to-codepoints", vec![x])]),
    }
}
pub fn c23(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 8) { return spaces(cx, r); }
    drive(cx, r, Flavor::Plain, 10, 40, &mut |g, cx| {
        if g.ch(1, 60) { cx.count("long string"); return on_long(g); }
        let mut x = a_string(g);
        for _ in 0..1 + g.r.below(2) {
            let arg = |g: &mut G| if g.ch(1, 14) { E::Empty } else { a_string(g) };
            x = match g.r.below(22) {
                0 | 1 => { let n = 1 + g.r.few(3); let mut v = vec![x]; for _ in 0..n { let a = match g.r.below(5) { 0 => a_number(g), 1 => g.boolv(0), 2 => E::Empty, _ => a_string(g) }; v.push(a); } call("concat", v) }
                2 => { let y = if g.ch(1, 4) { a_number(g) } else { arg(g) }; b(Op::Concat, x, y) }
                3 => { let n = g.r.many(4); let mut v = vec![x]; for _ in 0..n { v.push(if g.ch(1, 5) { a_number(g) } else { a_string(g) }); } let q = E::Seq(v); if g.ch(1, 3) { call("string-join", vec![q]) } else { let y = a_string(g); call("string-join", vec![q, y]) } }
                4 | 5 | 6 => { let p = a_place(g); let mut v = vec![x, p]; if g.ch(2, 3) { v.push(a_place(g)); } call("substring", v) }
                7 => call("string-length", vec![x]),
                8 => call("upper-case", vec![x]),
                9 => call("lower-case", vec![x]),
                10 | 11 => { let y = a_string(g); let z = a_string(g); call("translate", vec![x, y, z]) }
                12 => { let y = arg(g); call("contains", vec![x, y]) }
                13 => { let y = arg(g); call("starts-with", vec![x, y]) }
                14 => { let y = arg(g); call("ends-with", vec![x, y]) }
                15 => { let y = arg(g); call("substring-before", vec![x, y]) }
                16 => { let y = arg(g); call("substring-after", vec![x, y]) }
                17 => { let y = arg(g); call("compare", vec![x, y]) }
                18 => { let y = arg(g); call("codepoint-equal", vec![x, y]) }
                19 => { let n = g.r.many(4); let v = (0..n).map(|_| int(match g.r.below(6) { 0 => g.r.range(1, 0x10FFFF), 1 => { let k = *g.r.pick(&[0xD800, 0xDFFF, 0xD7FF, 0xE000, 0x10FFFF, 0x110000, -1, 0x100000061, i64::MAX]); if g.ch(1, 4) { g.wrapped(0x61) } else { k } }, _ => g.r.range(0x20, 0x7e) })).collect(); call("codepoints-to-string", vec![E::Seq2(v)]) }
                20 => call("string-to-codepoints", vec![x]),
                _ => { let y = if g.ch(1, 2) { E::Empty } else { x.clone() }; let f = *g.r.pick(&["upper-case", "lower-case", "string-length", "string-to-codepoints"]); let c = call(f, vec![y]); E::Seq(vec![c, x]) }
            };
        }
        x
    })
}
/// normalize-space on strings without white space between words is exact; what
/// it does between words is the known finding: the words follow each other
/// with nothing between them.
fn spaces(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let d = amxml::dom::new_document("<a/>").unwrap();
    for _ in 0..10 {
        let sp = |r: &mut Rng, min: usize| -> String { (0..min + r.below(3)).map(|_| *r.pick(&[' ', '\t', '\n', ' '])).collect() };
        let n = r.many(4);
        let words: Vec<String> = (0..n).map(|_| r.s(&["a", "bc", "日本", "😀", "x-y", "1", ".", "é", "\u{a0}", "a\u{3000}b", "\u{85}", "\u{2003}"])).collect();
        let mut t = sp(r, 0);
        for (i, w) in words.iter().enumerate() { if i > 0 { t.push_str(&sp(r, 1)); } t.push_str(w); }
        t.push_str(&sp(r, 0));
        let q = format!("normalize-space('{}')", t);
        cx.note(&q);
        let got = match real(&d, &q) { Ok(x) => x.to_string(), Err(e) => return violation(format!("{} fails: {}", q, e)) };
        cx.eval(Some(&q));
        cx.count("normalize-space");
        let right = format!("\"{}\"", words.join(" "));
        let known = format!("\"{}\"", words.concat());
        if got != right && got != known { return violation(format!("{} gives {}, expected {}", q, got, right)); }
    }
    Ok(())
}

pub fn c23_known() -> Vec<(&'static str, String)> {
    let d = amxml::dom::new_document("<a/>").unwrap();
    match d.eval_xpath("normalize-space(' abc  def ')") {
        Ok(ref q) if q.to_string() == "\"abcdef\"" => vec![("normalize-space-joins-words", "normalize-space(' abc  def ') gives \"abcdef\" instead of \"abc def\"".into())],
        _ => vec![],
    }
}

// ---------------------------------------------------------------------
// C24: numeric functions

pub fn c24(cx: &mut Cx, r: &mut Rng) -> Outcome {
    drive(cx, r, Flavor::Plain, 12, 50, &mut |g, _| {
        let half = |g: &mut G| { let v = g.r.range(-12, 12) as f64 / 2.0; if g.ch(1, 2) { lit_dec(v) } else { let t = format!("{:e}", v.abs()); if v < 0.0 { E::Neg(Box::new(E::Dbl(t))) } else { E::Dbl(t) } } };
        let x = match g.r.below(13) {
            12 => { let d = E::Dec(g.r.s(&["0.49999999999999994", "4503599627370495.5", "9007199254740991.0", "0.5", "1.5", "123456789.5", "0.000001", "99999999999999999999.0", "9223372036854775807.5", "0.99999999999999994"])); if g.ch(1, 2) { E::Neg(Box::new(d)) } else { d } }
            0..=2 => half(g), 3 | 4 => random_double(g), 5 => g.dbl_lit(), 6..=8 => a_number(g),
            9 => E::Empty, 10 => { let d = g.r.pick(&["0.49999999999999994e0", "4503599627370495.5e0", "4503599627370497e0", "9007199254740991e0", "0.5e0", "1.5e0", "2.5e0", "1e18", "9.3e18"]).to_string(); if g.ch(1, 2) { E::Neg(Box::new(E::Dbl(d))) } else { E::Dbl(d) } }
            _ => g.num(1),
        };
        match g.r.below(10) {
            0 | 1 => call("round", vec![x]), 2 | 3 => call("floor", vec![x]), 4 | 5 => call("ceiling", vec![x]), 6 | 7 => call("abs", vec![x]),
            8 => { let y = match g.r.below(7) { 5 | 6 => { let t = lexical(g.r); E::Str(t) } 0 => g.str_lit(), 1 => g.boolv(0), 2 => g.node1(1), 3 => E::Str(g.r.s(&["12", " 12 ", "-3.5", "1e3", "", "x", "0x10", "1 2", ".5", "5.", "1e400", "--1", "日"])), _ => x }; call("number", vec![y]) }
            _ => { let y = match g.r.below(4) { 0 => g.str_lit(), 1 => g.ints(0), 2 => g.map(0), _ => g.boolv(0) }; let f = *g.r.pick(&["round", "floor", "ceiling", "abs"]); if g.ch(1, 3) { call(f, vec![y]) } else { call(f, vec![call("round", vec![x])]) } }
        }
    })
}

// ---------------------------------------------------------------------
// C25: bindings

const FEW: &[&str] = &["x", "y", "z"];

fn scoped(g: &mut G, d: usize, bound: &mut Vec<String>) -> E {
    let var_ref = |g: &mut G, bound: &Vec<String>| -> E {
        if !bound.is_empty() && !g.r.chance(1, 60) { E::Var(g.r.pick(bound).clone()) } else { E::Var(g.r.s(&["x", "y", "z", "q"])) }
    };
    if d == 0 {
        return match g.r.below(6) { 0 => int(g.r.range(0, 9)), 1 => s(*g.r.pick(&["p", "q"])), 2 if g.foc == Foc::Node => E::Ctx, _ if !bound.is_empty() => var_ref(g, bound), _ => int(1) };
    }
    let seq = |g: &mut G, d: usize, bound: &mut Vec<String>| match g.r.below(5) {
        0 => E::Seq(vec![int(g.r.range(1, 3)), int(g.r.range(1, 9))]), 1 => b(Op::To, int(1), int(g.r.range(0, 3))),
        2 => g.nodes(1), 3 => { let (x, y) = (scoped(g, d - 1, bound), scoped(g, d - 1, bound)); E::Seq(vec![x, y]) }
        _ => scoped(g, d - 1, bound),
    };
    let base = bound.len();
    match g.r.below(12) {
        0..=2 => {
            let mut bs = vec![];
            for _ in 0..1 + g.r.few(3) { let x = seq(g, d, bound); let n = g.r.s(FEW); bs.push((n.clone(), x)); bound.push(n); }
            let body = scoped(g, d - 1, bound);
            bound.truncate(base);
            E::For(bs, Box::new(body))
        }
        3..=5 => {
            let mut bs = vec![];
            for _ in 0..1 + g.r.few(3) { let x = seq(g, d, bound); let n = g.r.s(FEW); bs.push((n.clone(), x)); bound.push(n); }
            let body = scoped(g, d - 1, bound);
            bound.truncate(base);
            E::Let(bs, Box::new(body))
        }
        6 | 7 => {
            let every = g.ch(1, 2);
            let mut bs = vec![];
            for _ in 0..1 + g.r.few(3) { let x = seq(g, d, bound); let n = g.r.s(FEW); bs.push((n.clone(), x)); bound.push(n); }
            let (x, y) = (scoped(g, d - 1, bound), scoped(g, 0, bound));
            let c = match g.r.below(3) { 0 => b(Op::GEq, x, y), 1 => call("exists", vec![x]), _ => b(Op::GLt, call("count", vec![x]), int(2)) };
            bound.truncate(base);
            E::Quant(every, bs, Box::new(c))
        }
        8 => { let v = (0..2 + g.r.below(2)).map(|_| scoped(g, d - 1, bound)).collect(); E::Seq(v) }
        9 => { let x = g.nodes(1); let p = { let c = scoped(g, d - 1, bound); b(Op::GEq, call("count", vec![c]), call("position", vec![])) }; filter(E::Seq(vec![x]), p) }
        10 => { let n = g.r.s(FEW); let a = scoped(g, d - 1, bound); let was = g.foc; g.foc = Foc::None; bound.push(n.clone()); let body = scoped(g, d - 1, bound); bound.truncate(base); g.foc = was; E::Dyn(Box::new(E::Inline(vec![(n, None)], None, Box::new(body))), vec![Some(a)]) }
        _ => { let (c, x, y) = (scoped(g, d - 1, bound), scoped(g, d - 1, bound), scoped(g, d - 1, bound)); E::If(Box::new(call("exists", vec![c])), Box::new(x), Box::new(y)) }
    }
}
pub fn c25(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let d = 1 + depth(r, cx, 3);
    drive(cx, r, Flavor::Plain, 8, 16, &mut |g, cx| {
        if g.ch(1, 4) { return g.wrapped_bindings(d.min(3)); }
        if g.ch(1, 12) { cx.count("one of many variables bound again"); return again_among_many(g); }
        let mut bound = vec![];
        let e = scoped(g, d, &mut bound);
        if g.ch(1, 6) {
            // after the scope has ended: the name is unbound, or the outer one again
            cx.count("after the scope");
            let n = g.r.s(FEW);
            let v = E::Seq(vec![e, E::Var(n.clone())]);
            return if g.ch(2, 3) { E::Let(vec![(n, s("outer"))], Box::new(v)) } else { v };
        }
        e
    })
}
/// Many variables, one of them bound again inside, all looked at afterwards.
fn again_among_many(g: &mut G) -> E {
    let n = 1 + match g.r.below(6) { 0 => g.r.below(100), 1 | 2 => g.r.below(20), _ => g.r.below(4) };
    let names: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
    let w = g.r.pick(&names).clone();
    let vals = E::Seq2((0..1 + g.r.below(4)).map(|_| int(g.r.range(100, 999))).collect());
    let mut use_it = b(Op::Add, var(&w), int(1000));
    // for some of the values nothing, or several
    if g.ch(1, 2) {
        let c = match g.r.below(4) { 0 => b(Op::GEq, b(Op::Mod, var(&w), int(2)), int(g.r.range(0, 1))), 1 => b(Op::GGt, var(&w), int(g.r.range(100, 999))), 2 => b(Op::GLt, var(&w), int(g.r.range(100, 999))), _ => b(Op::GEq, var(&w), int(0)) };
        let other = match g.r.below(4) { 0 => E::Seq(vec![var(&w), int(1)]), 1 => filter(var(&w), call("false", vec![])), _ => E::Seq(vec![]) };
        use_it = if g.ch(1, 2) { E::If(Box::new(c), Box::new(use_it), Box::new(other)) } else { E::If(Box::new(c), Box::new(other), Box::new(use_it)) };
    }
    let quant_it = b(Op::Add, var(&w), int(1000));
    let inner = match g.r.below(5) {
        0 => E::For(vec![(w.clone(), vals)], Box::new(use_it)),
        1 => E::Let(vec![(w.clone(), vals)], Box::new(call("count", vec![var(&w)]))),
        2 => { let every = g.ch(1, 2); E::Quant(every, vec![(w.clone(), vals)], Box::new(b(Op::GGt, if g.ch(1, 2) { use_it } else { quant_it }, int(g.r.range(1100, 1999))))) }
        3 => E::Dyn(Box::new(E::Inline(vec![(w.clone(), None)], None, Box::new(call("count", vec![var(&w)])))), vec![Some(vals)]),
        _ => call("for-each", vec![vals, E::Inline(vec![(w.clone(), None)], None, Box::new(use_it))]),
    };
    let mut all = vec![inner];
    for x in &names { if n < 12 || g.ch(1, 3) || *x == w { all.push(var(x)); } }
    let body = E::Seq(all);
    // bound in one let, in nested ones, or by for
    let mut e = body;
    let k = g.r.below(3);
    if k == 0 { return E::Let(names.iter().enumerate().map(|(i, x)| (x.clone(), int(i as i64))).collect(), Box::new(e)); }
    for (i, x) in names.iter().enumerate().rev() {
        e = if k == 1 || i % 2 == 0 { E::Let(vec![(x.clone(), int(i as i64))], Box::new(e)) } else { E::For(vec![(x.clone(), if i < 5 && g.ch(1, 3) { E::Seq2(vec![int(i as i64), int(7)]) } else { int(i as i64) })], Box::new(e)) };
    }
    e
}

impl<'a> G<'a> {
    pub fn wrapped_bindings(&mut self, d: usize) -> E {
        let vt = *self.r.pick(&[T::Ints, T::Nodes, T::Strs]);
        let x = self.of(vt, d.saturating_sub(1).max(1));
        let n = self.fresh();
        let one = match vt { T::Ints => T::Int, T::Nodes => T::Node, _ => T::Str };
        match self.r.below(3) {
            0 => { let y = self.with_var(&n, one, |g| g.plain(d)); E::For(vec![(n, x)], Box::new(y)) }
            1 => { let y = self.with_var(&n, vt, |g| g.plain(d)); E::Let(vec![(n, x)], Box::new(y)) }
            _ => { let every = self.ch(1, 2); let y = self.with_var(&n, one, |g| g.boolv(d)); E::Quant(every, vec![(n, x)], Box::new(y)) }
        }
    }
}

// ---------------------------------------------------------------------
// C26: function values

/// Arguments that usually suit the function.
pub fn args_for(g: &mut G, name: &str, n: usize) -> Vec<E> {
    let num = |g: &mut G| a_number(g);
    let mut v: Vec<E> = vec![];
    match name {
        "abs" | "ceiling" | "floor" | "round" => v.push(num(g)),
        "number" | "string" | "boolean" | "not" | "data" => v.push(match g.r.below(3) { 0 => num(g), 1 => a_string(g), _ => g.boolv(0) }),
        "codepoints-to-string" => v.push(E::Seq2((0..g.r.many(4)).map(|_| int(g.r.range(32, 0x2fff))).collect())),
        "substring" | "subsequence" => { v.push(if name == "substring" { a_string(g) } else { some_items(g) }); for _ in 1..n { v.push(int(g.r.range(-2, 6))); } }
        "insert-before" => { v.push(some_items(g)); v.push(int(g.r.range(-1, 6))); v.push(some_items(g)); }
        "remove" => { v.push(some_items(g)); v.push(int(g.r.range(-1, 6))); }
        "index-of" => { v.push(E::Seq2((0..g.r.many(5)).map(|_| int(g.r.range(0, 3))).collect())); v.push(int(g.r.range(0, 3))); }
        "count" | "empty" | "exists" | "head" | "tail" | "reverse" | "zero-or-one" | "one-or-more" | "exactly-one" => v.push(some_items(g)),
        "avg" | "max" | "min" | "sum" => { v.push(E::Seq2((0..g.r.many(5)).map(|_| int(g.r.range(-5, 9))).collect())); if n == 2 { v.push(int(0)); } }
        "string-join" => { v.push(g.strs(0)); if n == 2 { v.push(a_string(g)); } }
        "name" | "local-name" | "namespace-uri" | "root" | "nilled" => v.push(if g.foc == Foc::Node { g.node1(1) } else { E::Empty }),
        "lang" => { v.push(s("en")); if n == 2 { v.push(if g.foc == Foc::Node { E::Ctx } else { E::Empty }); } }
        "map:size" | "map:keys" => v.push(g.map(0)),
        "map:contains" | "map:get" => { v.push(g.map(0)); let i = g.r.below(3); v.push(g.key(i)); }
        "array:size" => v.push(g.arr(0)),
        "array:get" => { v.push(g.arr(0)); v.push(int(g.r.range(1, 3))); }
        "array:flatten" => { let x = g.arr(1); let y = g.arr(0); v.push(E::Seq(vec![x, y])); }
        _ => for _ in 0..n { v.push(a_string(g)); },
    }
    v.truncate(n);
    v
}
fn a_function(g: &mut G) -> (String, usize) {
    loop {
        let (n, k) = g.r.pick(crate::refeval::FUNCTIONS).clone();
        if n == "for-each" || n == "filter" || n == "normalize-space" || crate::refeval::context_dependent(n, k) { continue; }
        if g.ch(1, 12) { return ("concat".into(), 2 + if g.ch(1, 4) { g.r.below(40) } else { g.r.few(4) }); }
        return (n.to_string(), k);
    }
}

pub fn c26(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let bn = match bench(cx, r, Flavor::Plain, 12) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..16 {
        let ctx = pick_ctx(r, &bn.d);
        let mut same: Vec<E> = vec![];
        {
            let mut g = G::new(r, &bn.d);
            let g = &mut g;
            match g.r.below(12) {
                10 => {
                    // made where some variables are in scope, called where others are
                    let outer: Vec<String> = (0..g.r.many(4)).map(|i| format!("{}{}", g.r.s(&["o", "i"]), i)).collect();
                    let inner: Vec<String> = (0..g.r.many(4)).map(|i| format!("{}{}", g.r.s(&["o", "i"]), i)).collect();
                    let ps: Vec<String> = (0..g.r.below(4)).map(|i| format!("{}{}", g.r.s(&["p", "o"]), i)).collect();
                    let mut seen: Vec<E> = ps.iter().map(|x| var(x)).collect();
                    for x in &outer { if !ps.contains(x) && g.ch(2, 3) { seen.push(var(x)); } }
                    if seen.is_empty() { seen.push(int(7)); }
                    let f = E::Inline(ps.iter().map(|x| (x.clone(), None)).collect(), None, Box::new(E::Seq(seen)));
                    let mut after: Vec<E> = vec![];
                    let calls = 1 + g.r.below(3);
                    for c in 0..calls {
                        after.push(E::Dyn(Box::new(var("f")), ps.iter().enumerate().map(|(i, _)| Some(int((c * 10 + i) as i64))).collect()));
                        for x in inner.iter().chain(&outer) { if g.ch(2, 3) { after.push(var(x)); } }
                    }
                    let mut e = E::Seq(after);
                    if !inner.is_empty() { e = E::Let(inner.iter().enumerate().map(|(i, x)| (x.clone(), int(200 + i as i64))).collect(), Box::new(e)); }
                    e = E::Let(vec![("f".into(), f)], Box::new(e));
                    if !outer.is_empty() { e = E::Let(outer.iter().enumerate().map(|(i, x)| (x.clone(), int(100 + i as i64))).collect(), Box::new(e)); }
                    cx.count("function called in another scope than its own");
                    same.push(e);
                }
                0..=3 => {
                    // the same call in every way there is
                    let (f, n) = a_function(g);
                    let a = args_for(g, &f, n);
                    let all = |a: &Vec<E>| -> Vec<Option<E>> { a.iter().cloned().map(Some).collect() };
                    same.push(E::Call(f.clone(), all(&a)));
                    if g.ch(1, 2) { same.push(E::Call(if f.contains(':') { f.clone() } else { format!("fn:{}", f) }, all(&a))); }
                    same.push(E::Dyn(Box::new(E::FRef(f.clone(), n)), all(&a)));
                    if n > 0 {
                        same.push(E::Arrow(Box::new(a[0].clone()), Box::new(Callee::Name(f.clone())), all(&a[1..].to_vec())));
                        let fv = E::FRef(f.clone(), n);
                        same.push(E::Let(vec![("f".into(), fv.clone())], Box::new(E::Arrow(Box::new(a[0].clone()), Box::new(Callee::Var("f".into())), all(&a[1..].to_vec())))));
                        // some arguments fixed, the others given later
                        let mut fixed = vec![];
                        let mut later = vec![];
                        for x in &a { if g.ch(1, 2) { fixed.push(Some(x.clone())); } else { fixed.push(None); later.push(Some(x.clone())); } }
                        if !later.is_empty() {
                            if let Some(x) = fixed[0].clone() {
                                let p = E::Arrow(Box::new(x), Box::new(Callee::Name(f.clone())), fixed[1..].to_vec());
                                if g.ch(1, 2) { same.push(E::Dyn(Box::new(p), later.clone())); } else { same.push(E::Let(vec![("f".into(), p)], Box::new(E::Dyn(Box::new(var("f")), later.clone())))); }
                            }
                            if g.ch(1, 3) {
                                // made here, called at other nodes
                                let p = E::Call(f.clone(), fixed.clone());
                                let at = g.nodes(1);
                                let e = E::Let(vec![("f".into(), p)], Box::new(b(Op::Bang, at, E::Dyn(Box::new(var("f")), later.clone()))));
                                cx.count("open call made here, called elsewhere");
                                judge(cx, g.r, &bn, &e, ctx)?;
                            }
                            same.push(E::Dyn(Box::new(E::Call(f.clone(), fixed)), later));
                        }
                        // wrapped in an inline function, the parameters in any order
                        let mut names: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
                        let call_e = E::Call(f.clone(), names.iter().map(|x| Some(var(x))).collect());
                        let mut ord: Vec<usize> = (0..n).collect();
                        for k in (1..n).rev() { let j = g.r.below(k + 1); ord.swap(k, j); }
                        names = ord.iter().map(|i| names[*i].clone()).collect();
                        same.push(E::Dyn(Box::new(E::Inline(names.into_iter().map(|x| (x, None)).collect(), None, Box::new(call_e))), ord.iter().map(|i| Some(a[*i].clone())).collect()));
                    }
                    if n == 1 {
                        if matches!(a[0], E::Int(_) | E::Dec(_) | E::Dbl(_) | E::Str(_)) {
                            same.push(call("for-each", vec![a[0].clone(), E::FRef(f.clone(), 1)]));
                        }
                    }
                }
                4 => {
                    // functions that return functions
                    let n = g.fresh();
                    let x = g.plain(1);
                    let y = g.plain(0);
                    let m = g.fresh();
                    let body = g.within(Foc::None, |g| g.with_var(&n, T::Seq, |g| g.with_var(&m, T::Seq, |g| g.plain(1))));
                    let inner = E::Inline(vec![(m.clone(), None)], None, Box::new(body.clone()));
                    same.push(E::Dyn(Box::new(E::Dyn(Box::new(E::Inline(vec![(n.clone(), None)], None, Box::new(inner.clone()))), vec![Some(x.clone())])), vec![Some(y.clone())]));
                    if n != m { same.push(E::Dyn(Box::new(E::Inline(vec![(n.clone(), None), (m.clone(), None)], None, Box::new(body.clone()))), vec![Some(x.clone()), Some(y.clone())])); }
                    same.push(E::Let(vec![(n.clone(), x)], Box::new(E::Let(vec![("f".into(), inner)], Box::new(E::Let(vec![(n.clone(), s("hidden"))], Box::new(E::Dyn(Box::new(var("f")), vec![Some(y)]))))))));
                    if n == "f" { same.pop(); }
                }
                5 => {
                    let n = g.fresh();
                    let x = some_items(g);
                    let body = g.within(Foc::None, |g| g.with_var(&n, T::Seq, |g| g.plain(1)));
                    let f = E::Inline(vec![(n.clone(), None)], None, Box::new(body.clone()));
                    same.push(call("for-each", vec![x.clone(), f.clone()]));
                    same.push(E::Arrow(Box::new(x.clone()), Box::new(Callee::Name("for-each".into())), vec![Some(f.clone())]));
                    same.push(E::For(vec![("i".into(), x.clone())], Box::new(E::Dyn(Box::new(f), vec![Some(var("i"))]))));
                    same.push(E::For(vec![(n, x)], Box::new(body)));
                }
                6 => {
                    let n = g.fresh();
                    let x = some_items(g);
                    let body = g.within(Foc::None, |g| g.with_var(&n, T::Seq, |g| { let c = g.boolv(1); call("boolean", vec![c]) }));
                    let f = E::Inline(vec![(n.clone(), None)], None, Box::new(body.clone()));
                    same.push(call("filter", vec![x.clone(), f.clone()]));
                    same.push(E::Dyn(Box::new(E::FRef("filter".into(), 2)), vec![Some(x.clone()), Some(f)]));
                    same.push(E::For(vec![(n.clone(), x)], Box::new(E::If(Box::new(body), Box::new(var(&n)), Box::new(E::Empty)))));
                }
                11 => {
                    // maps and arrays are functions of one argument
                    let f = if g.ch(1, 2) { g.map(1) } else { g.arr(1) };
                    let n = match &f { E::Map(v) => v.len(), E::ArrS(v) => v.len(), _ => 3 };
                    let keys: Vec<E> = match &f { E::Map(v) => v.iter().map(|(k, _)| k.clone()).collect(), _ => (1..=n as i64).map(int).collect() };
                    let mut x = vec![];
                    for _ in 0..g.r.few(5) { x.push(if keys.is_empty() || g.ch(1, 12) { a_value(g) } else { g.r.pick(&keys).clone() }); }
                    let x = E::Seq(x);
                    same.push(call("for-each", vec![x.clone(), f.clone()]));
                    same.push(E::Let(vec![("f".into(), f.clone())], Box::new(E::Arrow(Box::new(x.clone()), Box::new(Callee::Name("for-each".into())), vec![Some(var("f"))]))));
                    same.push(E::For(vec![("i".into(), x.clone())], Box::new(E::Dyn(Box::new(f.clone()), vec![Some(var("i"))]))));
                    // the same as a filter
                    let ok: Vec<E> = keys.iter().take(6).cloned().collect();
                    let bools: Vec<E> = ok.iter().map(|_| if g.ch(1, 2) { E::Call("true".into(), vec![]) } else { E::Call("false".into(), vec![]) }).collect();
                    let y = E::Seq(ok.clone());
                    let e = call("filter", vec![y, if let E::Map(_) = f { E::Map(ok.into_iter().zip(bools).collect()) } else { E::ArrS(bools) }]);
                    judge(cx, g.r, &bn, &e, ctx)?;
                    cx.count("map or array as function");
                }
                7 => {
                    // calls that must fail
                    let (f, n) = a_function(g);
                    let a = args_for(g, &f, n);
                    let mut v: Vec<Option<E>> = a.iter().cloned().map(Some).collect();
                    if v.is_empty() || g.ch(1, 2) { v.push(Some(int(1))); } else { v.pop(); }
                    same.push(match g.r.below(6) {
                        0 if f != "concat" => E::Dyn(Box::new(E::FRef(f, n)), v),
                        1 => E::Dyn(Box::new(E::Inline(vec![("x".into(), None)], None, Box::new(int(1)))), if g.ch(1, 2) { vec![] } else { vec![Some(int(1)), Some(int(2))] }),
                        2 => E::Dyn(Box::new(E::Seq(vec![a_value(g)])), vec![Some(int(1))]),
                        3 => E::Dyn(Box::new(E::Seq(vec![E::FRef("count".into(), 1), E::FRef("exists".into(), 1)])), vec![Some(int(1))]),
                        4 => E::Call(g.r.s(&["nosuch", "fn:nosuch", "count-all", "string-lengths", "sum"]), vec![Some(int(1)), Some(int(1)), Some(int(2))]),
                        _ => E::FRef(g.r.s(&["nosuch", "count", "concatenate", "true"]), 3),
                    });
                    cx.count("bad call");
                }
                8 => {
                    // parameters with types
                    let t = g.ty(1);
                    let x = g.plain(1);
                    same.push(E::Dyn(Box::new(E::Inline(vec![("x".into(), Some(t))], None, Box::new(call("count", vec![var("x")])))), vec![Some(x)]));
                    cx.count("typed parameter");
                }
                _ => {
                    // a parameter hides an outer variable, only inside the body
                    let n = g.fresh();
                    let body = g.within(Foc::None, |g| g.with_var(&n, T::Seq, |g| g.plain(1)));
                    let (x, y) = (g.plain(0), g.plain(1));
                    let c = E::Dyn(Box::new(E::Inline(vec![(n.clone(), None)], None, Box::new(body))), vec![Some(y)]);
                    same.push(E::Let(vec![(n.clone(), x)], Box::new(E::Seq(vec![var(&n), c, var(&n)]))));
                }
            }
        }
        let mut first: Option<(String, Result<String, ()>)> = None;
        for e in &same {
            judge(cx, r, &bn, e, ctx)?;
            if same.len() == 1 { break; }
            let src = canon(e);
            let got = real(&bn.d.ptrs[ctx], &src).map(|q| q.to_string()).map_err(|_| ());
            match &first {
                None => first = Some((src, got)),
                Some((s0, g0)) => {
                    cx.count("call forms compared");
                    if *g0 != got && !g0.as_ref().map(|x| x.contains("function")).unwrap_or(false) { return violation(format!("{} gives {:?}, but {} gives {:?}\n  on node {} of {}", s0, g0, src, got, ctx, bn.text)); }
                }
            }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------------
// C27: maps and arrays

pub fn c27(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let d = depth(r, cx, 2);
    drive(cx, r, Flavor::Plain, 10, 24, &mut |g, _| {
        let is_map = g.ch(1, 2);
        let m = if is_map { big_map(g, d) } else { if g.ch(1, 5) { g.arr(d) } else { big_arr(g, d) } };
        let keys: Vec<E> = match &m { E::Map(v) => v.iter().map(|(k, _)| k.clone()).collect(), E::ArrS(v) => (1..=v.len() as i64).map(int).collect(), _ => vec![int(1), int(2)] };
        let key = |g: &mut G| if keys.is_empty() || g.ch(1, 8) { if is_map { let i = g.r.below(6); g.key(i) } else { int({ let h = if g.ch(1, 3) { 40 } else { 7 }; let k = g.r.range(-1, h); if g.ch(1, 3) { g.wrapped(k.min(3)) } else { k } }) } } else { let k = g.r.pick(&keys).clone(); if is_map && g.ch(1, 5) { key_variant(g, &k) } else { k } };
        let k = key(g);
        let base = if g.ch(1, 4) { var("m") } else { m.clone() };
        let e = match g.r.below(14) {
            0 | 1 => E::Dyn(Box::new(base), vec![Some(k)]),
            2 => match &k { E::Str(t) if ncname(t) => E::Lookup(Box::new(base), Key::Name(t.clone())), E::Int(i) => E::Lookup(Box::new(base), Key::Int(*i)), _ => E::Lookup(Box::new(base), Key::Expr(Box::new(k))) },
            3 => E::Lookup(Box::new(base), Key::Expr(Box::new(E::Seq(vec![key(g), k])))),
            4 => E::Lookup(Box::new(base), Key::Star),
            5 => call(if is_map { "map:get" } else { "array:get" }, vec![base, k]),
            6 => call(if is_map { "map:size" } else { "array:size" }, vec![base]),
            7 => if is_map { call("map:keys", vec![base]) } else { call("array:flatten", vec![base]) },
            8 => if is_map { call("map:contains", vec![base, k]) } else { let x = g.arr(1); let y = g.plain(0); call("array:flatten", vec![E::Seq(vec![base, y, x])]) },
            9 => b(Op::Bang, E::Seq(vec![base]), match &k { E::Str(t) if ncname(t) => E::ULookup(Key::Name(t.clone())), E::Int(i) => E::ULookup(Key::Int(*i)), _ => if g.ch(1, 2) { E::ULookup(Key::Star) } else { E::ULookup(Key::Expr(Box::new(k))) } }),
            10 => { let y = g.map(1); E::Lookup(Box::new(E::Seq(vec![base, y])), Key::Expr(Box::new(k))) }
            11 => base,
            12 => { let x = g.map(1); let kk = g.key(0); b(Op::Eq, call("count", vec![E::Lookup(Box::new(E::Map(vec![(s("in"), base)])), Key::Name("in".into()))]), call("count", vec![E::Lookup(Box::new(x), Key::Expr(Box::new(kk)))])) }
            _ => { let f = g.fun1(0); call("for-each", vec![E::Lookup(Box::new(base), Key::Star), f]) }
        };
        E::Let(vec![("m".into(), m)], Box::new(e))
    })
}
fn ncname(t: &str) -> bool { !t.is_empty() && t.chars().next().unwrap().is_alphabetic() && t.chars().all(|c| c.is_alphanumeric() || c == '-') }
fn big_map(g: &mut G, d: usize) -> E {
    if g.ch(1, 25) {
        // many entries, cheap ones
        let most = if g.ch(1, 3) { 280 } else { 60 };
        let n = 20 + g.r.below(most);
        let strs = g.ch(1, 2);
        let v = (0..n).map(|i| { let k = if strs { s(&format!("k{}", i)) } else { int(i as i64 * 3) }; (k, if g.ch(1, 10) { E::Seq2(vec![int(i as i64), s("v")]) } else { int(i as i64 + 1000) }) }).collect();
        return E::Map(v);
    }
    let n = g.r.many(7);
    let mut v: Vec<(E, E)> = vec![];
    for i in 0..n {
        let k = match g.r.below(7) { 0 => int(i as i64 + 1), 1 => s(&format!("k{}", i)), 2 => lit_dec(i as f64 + 0.5), 3 => { let k = ["a", "b", "c", "d-e", "日", "f", "x y"][i % 7]; if i < 7 { s(k) } else { s(&format!("{}{}", k, i)) } }, 4 => int(100 + i as i64), 5 => E::Dbl(format!("{}e{}", i + 2, i + 1)), _ => if i == 0 { call("true", vec![]) } else { int(-(i as i64)) } };
        let x = match g.r.below(8) { 7 => mixed_items(g, d), 0 if d > 0 => big_map(g, d - 1), 1 if d > 0 => big_arr(g, d - 1), 2 => E::Empty, 3 => some_items(g), _ => g.plain(d.min(1)) };
        v.push((k, x));
    }
    if g.ch(1, 5) && !v.is_empty() {
        // a key that is, or is not, the same as one already there
        let k = g.r.pick(&v).0.clone();
        let (k, x) = (key_variant(g, &k), g.plain(0));
        v.push((k, x));
    }
    if g.ch(1, 8) { let (k, x) = (g.node1(0), g.plain(0)); v.push((k, x)); }
    E::Map(v)
}
/// The same key of another type, or one that only looks the same.
fn key_variant(g: &mut G, k: &E) -> E {
    match k {
        E::Int(i) => match g.r.below(4) { 0 => s(&i.to_string()), 1 => E::Dec(format!("{}.0", i)), 2 => E::Dbl(format!("{}e0", i)), _ => k.clone() },
        E::Neg(_) => if g.ch(1, 2) { E::Cast(Box::new(k.clone()), Atom::Str, false) } else { E::Cast(Box::new(k.clone()), Atom::Double, false) },
        E::Dec(t) => match g.r.below(3) { 0 => s(t), 1 => E::Dbl(format!("{}e0", t)), _ => k.clone() },
        E::Str(t) => if g.ch(1, 2) { g.node1(0) } else { E::Str(format!("{} ", t)) },
        E::Call(n, _) if n == "true" => match g.r.below(3) { 0 => s("true"), 1 => int(1), _ => call("not", vec![call("false", vec![])]) },
        k => if g.ch(1, 2) { E::Cast(Box::new(k.clone()), Atom::Str, false) } else { k.clone() },
    }
}
/// Several items, maps and arrays among them.
fn mixed_items(g: &mut G, d: usize) -> E {
    let n = 2 + g.r.below(3);
    E::Seq((0..n).map(|_| match g.r.below(5) { 0 if d > 0 => big_map(g, d - 1), 1 | 2 if d > 0 => big_arr(g, d - 1), 3 => g.num_lit(), _ => g.plain(0) }).collect())
}
fn big_arr(g: &mut G, d: usize) -> E {
    let n = g.r.many(6);
    let v: Vec<E> = (0..n).map(|_| match g.r.below(8) { 7 => mixed_items(g, d), 0 if d > 0 => big_map(g, d - 1), 1 if d > 0 => big_arr(g, d - 1), 2 => E::Empty, 3 => some_items(g), _ => g.plain(d.min(1)) }).collect();
    if g.ch(1, 5) { E::ArrC(if v.is_empty() { None } else { Some(Box::new(E::Seq(v))) }) } else { E::ArrS(v) }
}

// ---------------------------------------------------------------------
// C28: types and casts

/// A string near the lexical form of a number or a boolean.
fn lexical(r: &mut Rng) -> String {
    let mut t = match r.below(5) {
        0 => r.s(&["true", "false", "1", "0", "INF", "-INF", "NaN", "+Infinity", "-Infinity"]),
        _ => {
            let mut t = r.s(&["", "", "-", "+"]);
            t.push_str(&r.s(&["0", "1", "12", "", "007", "9007199254740993", "123456789"]));
            if r.chance(1, 3) { t.push('.'); t.push_str(&r.s(&["", "0", "5", "25", "125"])); }
            if r.chance(1, 4) { t.push_str(&r.s(&["e", "E"])); t.push_str(&r.s(&["", "-", "+"])); t.push_str(&r.s(&["", "0", "2", "10", "-1"])); }
            t
        }
    };
    if r.chance(1, 5) {
        // one character too many or another one
        let cs: Vec<char> = t.chars().collect();
        let i = r.below(cs.len() + 1);
        let c = *r.pick(&['x', '_', ' ', '.', 'e', '-', '\u{a0}', '１', 'f', '\'', ',']);
        t = cs[..i].iter().chain(std::iter::once(&c)).chain(cs[i..].iter()).collect();
    }
    if r.chance(1, 3) { let w = r.s(&[" ", "\t", "\n", "  ", "\u{a0}", "\u{3000}", "\u{85}"]); if r.chance(1, 2) { t.insert_str(0, &w); } if r.chance(1, 2) { t.push_str(&w); } }
    t
}
/// A type of nodes, near those of the document.
fn node_type(g: &mut G) -> Ty {
    let i = match g.r.below(10) {
        0..=4 => {
            let n = if g.ch(1, 2) { "*".to_string() } else { g.elem_name() };
            let t = g.r.s(&["", ",xs:untyped", ",xs:untyped?", ",xs:anyType", ",xs:anyType?", ",xs:anySimpleType", ",xs:string"]);
            Item::Element(Some(n + &t))
        }
        5 | 6 => {
            let n = if g.ch(1, 2) { "*".to_string() } else { g.attr_name() };
            let t = g.r.s(&["", ",xs:untypedAtomic", ",xs:anyAtomicType", ",xs:anySimpleType", ",xs:anyType", ",xs:string"]);
            Item::Attribute(Some(n + &t))
        }
        7 => { let t = g.pi_target(); Item::Pi(Some(t)) }
        _ => [Item::Node, Item::Element(None), Item::Attribute(None), Item::Text, Item::Comment, Item::Pi(None), Item::Any, Item::AnyAtomic][g.r.below(8)].clone(),
    };
    Ty::Of(i, *g.r.pick(&[Occ::One, Occ::One, Occ::Opt, Occ::Star, Occ::Plus]))
}
pub fn c28(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let f = *r.pick(&[Flavor::Plain, Flavor::Ns]);
    drive(cx, r, f, 15, 40, &mut |g, _| {
        let atoms = [Atom::Integer, Atom::Decimal, Atom::Double, Atom::Str, Atom::Boolean];
        let source = |g: &mut G| match g.r.below(14) {
            0..=3 => a_number(g),
            12 | 13 => { let t = lexical(g.r); E::Str(t) }
            4 | 5 => E::Str(g.r.s(&["1", "0", "true", "false", "12", "-3", "2.5", "1e3", "abc", "", " 7 ", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "+5", "0x1", "True", "1.0", "00012", "日", "-0", "1_000"])),
            6 => g.boolv(0), 7 => g.str_lit(), 8 => g.node1(1), 9 => E::Empty, 10 => g.seq(0), _ => g.plain(1),
        };
        let x = source(g);
        let a = *g.r.pick(&atoms);
        let o = g.ch(1, 3);
        if g.ch(1, 8) {
            // every node of the document against one type
            let t = node_type(g);
            let all = b(Op::Union, b(Op::DSlash, E::Root, step(Axis::Child, Test::Node)), b(Op::DSlash, E::Root, step(Axis::Attribute, Test::Star)));
            return E::For(vec![("n".into(), all)], Box::new(E::Inst(Box::new(var("n")), t)));
        }
        if g.ch(1, 12) {
            // a long sequence, perhaps with one item of another kind
            let n = g.r.range(1, 150);
            let mut v = vec![b(Op::To, int(1), int(n))];
            if g.ch(1, 2) { let y = a_value(g); v.push(y); }
            if g.ch(1, 2) { let m = g.r.range(1, 80); v.push(b(Op::To, int(1), int(m))); }
            let t = if g.ch(1, 2) { Ty::Of(g.r.pick(&[Item::Integer, Item::Integer, Item::Decimal, Item::Numeric, Item::AnyAtomic, Item::Any]).clone(), *g.r.pick(&[Occ::One, Occ::Opt, Occ::Star, Occ::Plus])) } else { g.ty(1) };
            return E::Inst(Box::new(E::Seq(v)), t);
        }
        if g.ch(1, 30) {
            // a map or array of many entries, perhaps one of which does not fit
            let most = if g.ch(1, 4) { 200 } else { 30 };
            let n = 5 + g.r.below(most);
            let odd = if g.ch(2, 3) { if g.ch(1, 2) { n - 1 } else { g.r.below(n) } } else { n };
            let odd_key = g.ch(1, 2);
            let occ = *g.r.pick(&[Occ::One, Occ::Opt, Occ::Star, Occ::Plus]);
            let vi = g.r.pick(&[Item::Integer, Item::Decimal, Item::Numeric, Item::AnyAtomic, Item::Str, Item::Any]).clone();
            let bad = |g: &mut G| match g.r.below(3) { 0 => E::Empty, 1 => s("x"), _ => E::Seq2(vec![int(1), int(2)]) };
            if g.ch(1, 2) {
                let v = (0..n).map(|i| (if i == odd && odd_key { s("x") } else { int(i as i64) }, if i == odd && !odd_key { bad(g) } else { int(i as i64 * 3) })).collect();
                let k = g.r.pick(&[Item::Integer, Item::Integer, Item::Decimal, Item::Str, Item::AnyAtomic]).clone();
                return E::Inst(Box::new(E::Map(v)), Ty::Of(Item::MapOf(Box::new(k), Box::new(Ty::Of(vi, occ))), Occ::One));
            }
            let v = (0..n).map(|i| if i == odd { bad(g) } else { int(i as i64) }).collect();
            return E::Inst(Box::new(E::ArrS(v)), Ty::Of(Item::ArrayOf(Box::new(Ty::Of(vi, occ))), Occ::One));
        }
        match g.r.below(12) {
            0..=2 => E::Cast(Box::new(x), a, o),
            3 | 4 => E::Castable(Box::new(x), a, o),
            5 => {
                // to a string and back
                let t = E::Cast(Box::new(E::Seq(vec![E::Cast(Box::new(x.clone()), Atom::Str, false)])), a, false);
                b(Op::Eq, t, E::Cast(Box::new(x), a, false))
            }
            6 => E::If(Box::new(E::Castable(Box::new(x.clone()), a, o)), Box::new(E::Cast(Box::new(x), a, o)), Box::new(s("no"))),
            _ => {
                let x = match g.r.below(6) { 0 => x, 1 => g.seq(1), 2 => g.nodes(1), 3 => { let n = g.r.many(4); E::Seq2((0..n).map(|_| a_value(g)).collect()) } 4 => if g.ch(1, 2) { g.map(1) } else { g.arr(1) }, _ => g.any(1) };
                let t = g.ty(2);
                E::Inst(Box::new(x), t)
            }
        }
    })
}

// ---------------------------------------------------------------------
// C35: types of function values

fn a_sig_type(g: &mut G, d: usize) -> Ty {
    if g.ch(1, 16) { return Ty::EmptySeq; }
    let i = if d > 0 && g.ch(1, 5) { let n = g.r.few(3); let a = (0..n).map(|_| a_sig_type(g, d - 1)).collect(); let r = a_sig_type(g, d - 1); Item::FunOf(a, Box::new(r)) } else { let k = if g.ch(1, 3) { 2 } else { 0 }; g.item(k) };
    // an occurrence indicator after a function test belongs to its result type
    if let Item::FunOf(..) = i { return Ty::Of(i, Occ::One); }
    Ty::Of(i, *g.r.pick(&[Occ::One, Occ::One, Occ::Opt, Occ::Star, Occ::Plus]))
}
/// A type near `t`, so that both answers are likely.
fn near(g: &mut G, t: &Ty) -> Ty {
    match g.r.below(8) {
        5 | 6 => match t {
            Ty::Of(i, o) => {
                // another type of the same family
                let x = match i {
                    Item::Pi(_) => Item::Pi(if g.ch(1, 3) { None } else { Some(g.pi_target()) }),
                    Item::Element(_) => Item::Element(g.kind_arg(false, true)),
                    Item::Attribute(_) => Item::Attribute(g.kind_arg(true, true)),
                    Item::Text | Item::Comment | Item::Node => [Item::Text, Item::Comment, Item::Node, Item::Pi(None), Item::Element(None)][g.r.below(5)].clone(),
                    Item::Integer | Item::Decimal | Item::Double | Item::Numeric | Item::Str | Item::Boolean | Item::AnyAtomic => [Item::Integer, Item::Decimal, Item::Double, Item::Numeric, Item::Str, Item::Boolean, Item::AnyAtomic][g.r.below(7)].clone(),
                    Item::MapAny | Item::ArrayAny | Item::FunAny | Item::Any => [Item::MapAny, Item::ArrayAny, Item::FunAny, Item::Any][g.r.below(4)].clone(),
                    Item::MapOf(k, v) => { let v = near(g, v); let k = if g.ch(1, 2) { (**k).clone() } else { [Item::Str, Item::Integer, Item::AnyAtomic, Item::Decimal, Item::Double, Item::Boolean][g.r.below(6)].clone() }; Item::MapOf(Box::new(k), Box::new(v)) }
                    Item::ArrayOf(v) => { let v = near(g, v); Item::ArrayOf(Box::new(v)) }
                    Item::FunOf(a, r) => { let a2 = a.iter().map(|x| near(g, x)).collect(); let r2 = near(g, r); Item::FunOf(a2, Box::new(r2)) }
                };
                if let Item::FunOf(..) = x { return Ty::Of(x, Occ::One); }
                Ty::Of(x, *o)
            }
            t => t.clone(),
        },
        7 => down(g, t),
        0 | 1 => t.clone(),
        2 => match t { Ty::Of(Item::FunOf(..), _) => t.clone(), Ty::Of(i, _) => Ty::Of(i.clone(), *g.r.pick(&[Occ::One, Occ::Opt, Occ::Star, Occ::Plus])), t => t.clone() },
        3 => match t {
            Ty::Of(i, o) => {
                let up = match i { Item::Integer => Item::Decimal, Item::Decimal | Item::Double => Item::Numeric, Item::Numeric | Item::Str | Item::Boolean => Item::AnyAtomic, Item::Element(Some(_)) => Item::Element(None), Item::Element(None) | Item::Attribute(_) | Item::Text => Item::Node, Item::MapOf(..) => Item::MapAny, Item::ArrayOf(..) => Item::ArrayAny, Item::MapAny | Item::ArrayAny => Item::FunAny, _ => Item::Any };
                Ty::Of(up, *o)
            }
            t => t.clone(),
        },
        _ => a_sig_type(g, 1),
    }
}
/// A type below the given one.
fn down(g: &mut G, t: &Ty) -> Ty {
    match t {
        Ty::Of(i, o) => {
            let lo = match i {
                Item::Any => [Item::Node, Item::AnyAtomic, Item::Str, Item::Element(None), Item::MapAny][g.r.below(5)].clone(),
                Item::AnyAtomic => [Item::Numeric, Item::Str, Item::Boolean, Item::Integer][g.r.below(4)].clone(),
                Item::Numeric => [Item::Integer, Item::Decimal, Item::Double][g.r.below(3)].clone(),
                Item::Decimal => Item::Integer,
                Item::Node => [Item::Element(None), Item::Attribute(None), Item::Text, Item::Element(Some("a".into()))][g.r.below(4)].clone(),
                i => i.clone(),
            };
            let oc = match o { Occ::Star => *g.r.pick(&[Occ::Star, Occ::One, Occ::Opt, Occ::Plus]), Occ::Opt => *g.r.pick(&[Occ::Opt, Occ::One]), Occ::Plus => *g.r.pick(&[Occ::Plus, Occ::One]), Occ::One => Occ::One };
            Ty::Of(lo, oc)
        }
        t => t.clone(),
    }
}
pub fn c35(cx: &mut Cx, r: &mut Rng) -> Outcome {
    drive(cx, r, Flavor::Plain, 4, 40, &mut |g, cx| {
        if g.ch(2, 5) {
            // a reference to a function, or a call with some arguments left open
            let i = g.r.below(SIGNATURES.len());
            let (ps, r) = sig_of(i);
            let n = SIGNATURES[i].0;
            let ps = if n == "concat" && g.ch(1, 2) { cx.count("concat of many arguments"); vec![ps[0].clone(); 5 + g.r.below(30)] } else { ps };
            let partial = !ps.is_empty() && g.ch(1, 2);
            let mut open: Vec<bool> = ps.iter().map(|_| !partial || g.ch(1, 2)).collect();
            if partial && !open.contains(&true) { let k = g.r.below(open.len()); open[k] = true; }
            let f = if partial { E::Call(n.to_string(), open.iter().map(|&o| if o { None } else { Some(E::Int(1)) }).collect()) } else { E::FRef(n.to_string(), ps.len()) };
            cx.count(if partial { "call with open arguments" } else { "reference to a function" });
            let mut want: Vec<Ty> = vec![];
            for (t, &o) in ps.iter().zip(&open) { if o { let t2 = if g.ch(2, 3) { t.clone() } else if g.ch(1, 2) { down(g, t) } else { near(g, t) }; want.push(t2); } }
            if g.ch(1, 14) { want.push(Ty::Of(Item::Any, Occ::Star)); }
            if g.ch(1, 20) { want.pop(); }
            if want.len() > 4 && g.ch(1, 2) { let k = want.len() - 1 - g.r.below(3); want[k] = if g.ch(1, 2) { near(g, &ps[0]) } else { Ty::Of(Item::Node, Occ::One) }; }
            let wr = if g.ch(2, 3) { near(g, &r) } else { r.clone() };
            let t = Ty::Of(Item::FunOf(want, Box::new(wr)), Occ::One);
            if g.ch(1, 5) { return E::Dyn(Box::new(E::Inline(vec![("f".into(), Some(t))], None, Box::new(s("ok")))), vec![Some(f)]); }
            return E::Inst(Box::new(E::Seq(vec![f])), t);
        }
        let n = g.r.few(3);
        let ps: Vec<Ty> = (0..n).map(|_| { let d = if g.ch(1, 12) { 3 } else { 1 }; a_sig_type(g, d) }).collect();
        let ret = { let d = if g.ch(1, 12) { 3 } else { 1 }; a_sig_type(g, d) };
        let declared = |g: &mut G, t: &Ty| if g.r.chance(1, 8) { None } else { Some(t.clone()) };
        let mut params = vec![];
        for (i, t) in ps.iter().enumerate() { let dt = declared(g, t); params.push((format!("p{}", i), dt)); }
        let rt = declared(g, &ret);
        let f = E::Inline(params, rt, Box::new(E::Empty));
        let mut want: Vec<Ty> = vec![];
        for t in &ps { let x = near(g, t); want.push(x); }
        if g.ch(1, 14) { want.push(Ty::Of(Item::Any, Occ::Star)); }
        let wr = near(g, &ret);
        let occ = *g.r.pick(&[Occ::One, Occ::One, Occ::One, Occ::Star]);
        let t = match g.r.below(8) { 0 => Ty::Of(Item::FunAny, occ), 1 => Ty::Of(Item::Any, occ), _ => Ty::Of(Item::FunOf(want, Box::new(wr)), Occ::One) };
        if g.ch(1, 5) {
            cx.count("function as an argument of a declared type");
            return E::Dyn(Box::new(E::Inline(vec![("f".into(), Some(t))], None, Box::new(s("ok")))), vec![Some(f)]);
        }
        E::Inst(Box::new(E::Seq(vec![f])), t)
    })
}

// ---------------------------------------------------------------------
// C32: rendering

pub fn c32(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let bn = match bench(cx, r, Flavor::Plain, 12) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..20 {
        let ctx = pick_ctx(r, &bn.d);
        let e = {
            let mut g = G::new(r, &bn.d);
            let g = &mut g;
            match g.r.below(8) { 0 => random_double(g), 1 => a_number(g), 2 => { let k = 1 + g.r.below(5); E::Seq((0..k).map(|_| a_value(g)).collect()) } 3 => big_map(g, 2), 4 => big_arr(g, 2), 5 => some_items(g), 6 => E::Seq(vec![g.any(1), g.any(1)]), _ => g.any(2) }
        };
        judge(cx, r, &bn, &e, ctx)?;
        let src = canon(&e);
        cx.note(&format!("{}\n  on node {} of {}", src, ctx, bn.text));
        let q = match real(&bn.d.ptrs[ctx], &src) { Ok(q) => q, Err(_) => continue };
        let items: Vec<String> = (0..q.len()).map(|i| q.get_item(i).to_string()).collect();
        let want = match items.len() { 0 => "()".to_string(), 1 => items[0].clone(), _ => format!("({})", items.join(", ")) };
        cx.eval(Some(&want));
        cx.count(match items.len() { 0 => "empty rendering", 1 => "single rendering", _ => "composed rendering" });
        if q.to_string() != want { return violation(format!("{} is rendered {}, its items are {:?}", src, q.to_string(), items)); }
        for (i, t) in items.iter().enumerate() {
            let it = q.get_item(i);
            let node = it.as_nodeptr();
            if let Some(p) = &node { if bn.d.index_of(p).is_none() { return violation(format!("{}: item {} is a node of another tree", src, i)); } cx.count("node item"); continue; }
            // a number's rendering, read back as an expression, is the same number
            let numeric = t != "-9223372036854775808" && (t.starts_with(|c: char| c.is_ascii_digit()) || t.starts_with('-') && t.len() > 1 && t.as_bytes()[1].is_ascii_digit());
            if numeric {
                let back = match real(&bn.root, t) { Ok(x) => x.to_string(), Err(e) => format!("error: {}", e) };
                cx.count("number read back");
                if back != *t { return violation(format!("{}: item {} is rendered {}, which is read back as {}", src, i, t, back)); }
                let ty = if t.contains('e') { "xs:double" } else if t.contains('.') { "xs:decimal" } else { "xs:integer" };
                let pr = format!("({})[{}] instance of {}", src, i + 1, ty);
                if let Ok(x) = real(&bn.d.ptrs[ctx], &pr) { cx.count("type of a rendered number"); if x.to_string() != "true" { return violation(format!("{} is {}, but item {} is rendered {}", pr, x.to_string(), i + 1, t)); } }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------
// C33: functions on nodes

/// The same document with its text cut differently into runs and CDATA sections.
fn resplit(r: &mut Rng, m: &M) -> String {
    fn go(r: &mut Rng, m: &M, o: &mut String) {
        match m.kind {
            Kind::Doc => for k in &m.kids { go(r, k, o) },
            Kind::Elem => {
                o.push_str(&format!("<{}", m.name));
                for (k, v) in &m.attrs { o.push_str(&format!(" {}=\"{}\"", k, crate::model::esc(v))); }
                o.push('>');
                for k in &m.kids { go(r, k, o); }
                o.push_str(&format!("</{}>", m.name));
            }
            Kind::Text => {
                let mut run = String::new();
                let cs: Vec<char> = m.value.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    let n = 1 + r.below(cs.len() - i);
                    let part: String = cs[i..i + n].iter().collect();
                    if r.chance(1, 2) && !part.contains("]]>") && !part.contains('\r') { run.push_str(&format!("<![CDATA[{}]]>", part)); } else { run.push_str(&crate::model::esc(&part)); }
                    if r.chance(1, 5) { run.push_str("<![CDATA[]]>"); }
                    i += n;
                }
                o.push_str(&run);
            }
            _ => o.push_str(&m.ser()),
        }
    }
    let mut o = String::new();
    go(r, m, &mut o);
    o
}

/// Elements far below the one that says the language, or that holds the text.
fn deep_lang(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let n = 10 + r.below(60);
    let mut t = String::from("<r xml:lang='en-US'>");
    for i in 0..n {
        t.push_str(&match r.below(24) { 0 => "<a xml:lang='fr'>".to_string(), 1 => "<a xml:lang=''>".to_string(), 2 => format!("<b k='{}'>", i), 3 => format!("x{}<a>", i), _ => "<a>".to_string() });
        t.push_str(if t.ends_with("'>") && t.contains("<b k") && t.rfind("<b k") > t.rfind("<a") { "<c/></b><a>" } else { "" });
    }
    t.push_str("<c k='1'>text</c><!--c-->");
    for _ in 0..n { t.push_str("</a>"); }
    t.push_str("</r>");
    let bn = match bench_of(cx, &t) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..12 {
        let ctx = if r.chance(1, 2) { bn.d.nodes.len() - 1 - r.below(4) } else { r.below(bn.d.nodes.len()) };
        let l = E::Str(r.s(&["en", "EN-us", "fr", "", "e"]));
        let e = match r.below(6) {
            0 | 1 => call("lang", vec![l]),
            2 => filter(E::Seq(vec![b(Op::DSlash, E::Root, step(Axis::Child, Test::Node))]), call("lang", vec![l])),
            3 => call(*r.pick(&["string", "data", "string-length"]), vec![]),
            4 => b(Op::Is, call("root", vec![]), E::Root),
            _ => b(Op::Slash, b(Op::DSlash, E::Root, step(Axis::Child, name("c"))), call("root", vec![])),
        };
        cx.count("far below");
        judge(cx, r, &bn, &e, ctx)?;
    }
    Ok(())
}
pub fn c33(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 60) { return deep_lang(cx, r); }
    match r.below(4) {
        0 | 1 => {
            let f = *r.pick(&[Flavor::Plain, Flavor::Ns, Flavor::Lang, Flavor::Lang]);
            let bn = match bench(cx, r, f, 30) { Ok(b) => b, Err(e) => return violation(e) };
            for _ in 0..30 {
                let ctx = if r.chance(1, 2) { r.below(bn.d.nodes.len()) } else { pick_ctx(r, &bn.d) };
                let e = {
                    let mut g = G::new(r, &bn.d);
                    let g = &mut g;
                    let lang = |g: &mut G| E::Str(g.r.s(&["en", "EN", "en-US", "En-gb", "fr", "e", "", "en-", "de", "ja", "en-us", "en-", "zh-hant", "zh-HANT-tw", "Én", "x", "-"]));
                    let node = |g: &mut G| match g.r.below(4) { 0 => E::Ctx, 1 => g.node1(1), 2 => pick_node(g), _ => E::DotDot };
                    match g.r.below(12) {
                        0 => { let n = node(g); call("string", vec![n]) }
                        1 => { let n = if g.ch(1, 2) { g.nodes(1) } else { node(g) }; call("data", vec![n]) }
                        2 => { let n = node(g); call("root", vec![n]) }
                        3 | 4 => { let l = lang(g); call("lang", vec![l]) }
                        5 => { let l = lang(g); let n = node(g); call("lang", vec![l, n]) }
                        6 => { let n = node(g); call(*g.r.pick(&["name", "local-name", "namespace-uri", "number", "nilled"]), vec![n]) }
                        7 => { let a = g.nodes(1); let l = lang(g); filter(E::Seq(vec![a]), call("lang", vec![l])) }
                        8 => { let a = g.nodes(1); b(Op::Slash, a, call(*g.r.pick(&["string", "name", "local-name", "root", "data", "string-length", "number", "namespace-uri"]), vec![])) }
                        9 => { let a = g.nodes(1); b(Op::Bang, a, call(*g.r.pick(&["string", "name", "data", "number", "nilled"]), vec![])) }
                        10 => b(Op::Is, call("root", vec![]), E::Root),
                        _ => call(*g.r.pick(&["string", "data", "root", "name", "number", "string-length", "local-name", "namespace-uri", "nilled"]), vec![]),
                    }
                };
                judge(cx, r, &bn, &e, ctx)?;
            }
            Ok(())
        }
        2 => {
            // no argument means '.'
            let bn = match bench(cx, r, Flavor::Lang, 15) { Ok(b) => b, Err(e) => return violation(e) };
            for ctx in 0..bn.d.nodes.len() {
                for f in ["string", "data", "number", "string-length", "name", "local-name", "namespace-uri", "root", "nilled"] {
                    if !r.chance(1, 2) { continue; }
                    let arg = if f == "string-length" { "string(.)" } else { "." };
                    let wrap = r.s(&["F", "(F, 1)", "//node() ! F", "for $x in (1, 2) return F", "if (F = 'zz') then 1 else F"]);
                    let (p, q) = (wrap.replace('F', &format!("{}()", f)), wrap.replace('F', &format!("{}({})", f, arg)));
                    cx.note(&format!("{} and {}\n  on node {} of {}", p, q, ctx, bn.text));
                    let (x, y) = (real(&bn.d.ptrs[ctx], &p), real(&bn.d.ptrs[ctx], &q));
                    cx.eval(Some(&format!("{} {}", f, ctx)));
                    cx.count("no argument and '.'");
                    let (x, y) = (x.map(|v| v.to_string()), y.map(|v| v.to_string()));
                    if x.is_ok() != y.is_ok() || x.is_ok() && x != y { return violation(format!("{} gives {:?}, {} gives {:?}\n  on node {} of {}", p, x, q, y, ctx, bn.text)); }
                }
                let l = r.s(&["en", "en-us", "EN", "fr"]);
                let (p, q) = (format!("lang('{}')", l), format!("lang('{}', .)", l));
                let (x, y) = (real(&bn.d.ptrs[ctx], &p).map(|v| v.to_string()), real(&bn.d.ptrs[ctx], &q).map(|v| v.to_string()));
                cx.count("no argument and '.'");
                if x != y { return violation(format!("{} gives {:?}, {} gives {:?}\n  on node {} of {}", p, x, q, y, ctx, bn.text)); }
            }
            Ok(())
        }
        _ => {
            // the same text, cut into different runs
            let m = crate::model::gen_doc(r, &DocCfg { max_nodes: 20, depth: 5, names: NAMES, attr_names: &["id", "k"], misc: false, wild_text: true, prolog: false, namespaces: false, lang: false, texts: true, scale: 100 }).merged();
            let (t1, t2) = (resplit(r, &m), resplit(r, &m));
            cx.note(&format!("{}\n  and {}", t1, t2));
            let (a, b2) = match (amxml::dom::new_document(&t1), amxml::dom::new_document(&t2)) { (Ok(a), Ok(b)) => (a, b), (x, y) => return violation(format!("not accepted: {} {:?} / {} {:?}", t1, x.is_ok(), t2, y.is_ok())) };
            let (da, db) = (Doc::of(&a), Doc::of(&b2));
            let (ea, eb) = (da.elems(), db.elems());
            if ea.len() != eb.len() { return violation(format!("different numbers of elements in {} and {}", t1, t2)); }
            let text_of = |i: usize| -> String { da.string_value(ea[i]) };
            for q in ["string(.)", "string()", "data(.)", "concat('[', ., ']')", "string-join((., .), '|')", ". = string(.)"] {
                for i in 0..ea.len() {
                    let (x, y) = (real(&da.ptrs[ea[i]], q).map(|v| v.to_string()), real(&db.ptrs[eb[i]], q).map(|v| v.to_string()));
                    cx.eval(Some(&t1));
                    cx.count("text cut differently");
                    if x != y { return violation(format!("{} gives {:?} and {:?} on element {} of\n  {}\n  {}", q, x, y, i, t1, t2)); }
                    if q == "string(.)" && x.as_deref() != Ok(&format!("\"{}\"", text_of(i))) { return violation(format!("string(.) gives {:?} for an element with the text {:?}", x, text_of(i))); }
                }
            }
            Ok(())
        }
    }
}
