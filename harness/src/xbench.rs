//! Evaluates expressions with the code under test and compares the observed
//! results, item by item, with the reference evaluator.
use crate::ast::*;
use crate::gen::*;
use crate::model::*;
use crate::refeval::*;
use crate::rng::Rng;
use crate::runner::{violation, Cx, Outcome};
use amxml::dom::{new_document, NodePtr};
use amxml::xpath::Sequence;

pub const NAMES: &[&str] = &["a", "b", "c", "d"];
pub const NAMES_NS: &[&str] = &["a", "b", "n:a", "m:b", "n:c", "a-b", "要素"];
pub const NAMES_KW: &[&str] = &["a", "div", "mod", "to", "and", "or", "for", "if", "return", "in", "eq", "union", "is", "of", "map", "text", "node", "child", "let", "some", "then", "else", "instance", "array", "function", "idiv", "element", "string"];

#[derive(Clone, Copy, PartialEq)]
pub enum Flavor { Plain, Ns, Kw, Lang }

pub fn cfg(f: Flavor, big: usize) -> DocCfg {
    DocCfg {
        max_nodes: big, depth: 5, names: match f { Flavor::Ns => NAMES_NS, Flavor::Kw => NAMES_KW, _ => NAMES }, attr_names: if f == Flavor::Ns { &["id", "k", "x", "n:k", "m:id"] } else { &["id", "k", "x"] },
        misc: true, wild_text: false, prolog: false, namespaces: f == Flavor::Ns, lang: f == Flavor::Lang, texts: true, scale: 150,
    }
}

/// A document together with its model; kept alive by `root`.
pub struct Bench { pub root: NodePtr, pub d: Doc, pub text: String }

pub fn gen_m(r: &mut Rng, f: Flavor, big: usize) -> M {
    let mut m = gen_doc(r, &cfg(f, big));
    if r.chance(1, 12) { rename(r, &mut m); }
    for _ in 0..r.below(3) {
        let at = r.below(m.kids.len() + 1);
        let n = if r.chance(1, 2) { M::new(Kind::Comment, "", "top") } else { M::new(Kind::Pi, "p", "top pi") };
        m.kids.insert(at, n);
    }
    m
}

/// Gives some of the names of a document other ones, throughout.
fn rename(r: &mut Rng, m: &mut M) {
    fn names(m: &M, v: &mut Vec<String>) {
        for n in std::iter::once(&m.name).chain(m.attrs.iter().map(|a| &a.0)) {
            let fixed = n.is_empty() || n.starts_with("xml") || n.starts_with("xsi:");
            let l = n.rsplit(':').next().unwrap().to_string();
            if !fixed && !v.contains(&l) { v.push(l); }
        }
        for k in &m.kids { names(k, v); }
    }
    fn put(m: &mut M, old: &str, new: &str) {
        let go = |n: &mut String| {
            let cut = n.rfind(':').map_or(0, |i| i + 1);
            if !n.starts_with("xml") && &n[cut..] == old { *n = format!("{}{}", &n[..cut], new); }
        };
        go(&mut m.name);
        for a in &mut m.attrs { go(&mut a.0); }
        for k in &mut m.kids { put(k, old, new); }
    }
    let mut v = vec![];
    names(m, &mut v);
    for _ in 0..1 + r.below(3) {
        if v.is_empty() { return; }
        let i = r.below(v.len());
        let old = v.swap_remove(i);
        let new = match r.below(8) { 0 => crate::names::ncname(r), 1 | 2 => r.s(&["a.b", "p.q.r", "a-1", "_", "a..", "x-", "A.1-2_3"]), _ => crate::names::edge_name(r) };
        let mut now = vec![];
        names(m, &mut now);
        // still different names after that
        if !now.contains(&new) && !new.to_lowercase().starts_with("xml") { put(m, &old, &new); }
    }
}

pub fn bench_of(cx: &mut Cx, text: &str) -> Result<Bench, String> {
    cx.note(text);
    match new_document(text) {
        Ok(root) => { let d = Doc::of(&root); Ok(Bench { root, d, text: text.to_string() }) }
        Err(e) => Err(format!("document {:?} was rejected: {}", text, e)),
    }
}

pub fn bench(cx: &mut Cx, r: &mut Rng, f: Flavor, big: usize) -> Result<Bench, String> {
    let m = gen_m(r, f, big);
    let t = crate::model::render(r, &m, true).text;
    let mut bn = bench_of(cx, &t)?;
    if f != Flavor::Ns && r.chance(1, 6) {
        // a detached subtree is a tree of its own
        let es: Vec<usize> = bn.d.elems().into_iter().filter(|i| bn.d.nodes[*i].parent.map(|p| p != 0).unwrap_or(false)).collect();
        if !es.is_empty() {
            let i = *r.pick(&es);
            let p = bn.d.nodes[i].parent.unwrap();
            let n = bn.d.ptrs[i].rc_clone();
            bn.d.ptrs[p].delete_child(&n);
            bn.d = Doc::of(&n);
            bn.text = format!("{} (detached from {})", n.to_string(), bn.text);
            bn.root = n;
            cx.count("detached tree");
        }
    }
    Ok(bn)
}

pub enum Verdict { Values(usize), Error, Skip(&'static str), Differ(String) }

pub fn kind_name(v: &V) -> &'static str {
    match v { V::Node(_) => "node", V::Str(_) => "string", V::Int(_) => "integer", V::Dec(_) => "decimal", V::Dbl(_) => "double", V::Bool(_) => "boolean", V::Map(_) => "map", V::Arr(_) => "array", V::Fun(_) => "function" }
}

/// Describes what is wrong with an observed result, if anything.
pub fn compare(rf: &Ref, want: &Res, got: &Result<Sequence, String>) -> Verdict {
    match (want, got) {
        (Err(Er::Unsupported(u)), _) => Verdict::Skip(u),
        (Err(Er::Error(_)), Err(_)) => Verdict::Error,
        (Err(Er::Error(w)), Ok(g)) => Verdict::Differ(format!("expected an error ({}), got {}", w, clip(&g.to_string()))),
        (Ok(w), Err(e)) => Verdict::Differ(format!("expected {}, got an error: {}", clip(&rf.show_seq(w).unwrap_or("?".into())), e)),
        (Ok(w), Ok(g)) => match same_items(rf, w, g) { Some(d) => Verdict::Differ(d), None => Verdict::Values(w.len()) },
    }
}
fn clip(s: &str) -> String { if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + ".." } else { s.to_string() } }

pub fn same_items(rf: &Ref, w: &S, g: &Sequence) -> Option<String> {
    let text = g.to_string();
    let exp = || clip(&rf.show_seq(w).unwrap_or("(functions)".into()));
    if g.len() != w.len() { return Some(format!("expected {} items {}, got {} items {}", w.len(), exp(), g.len(), clip(&text))); }
    for (i, v) in w.iter().enumerate() {
        let it = g.get_item(i);
        match v {
            V::Node(n) => match it.as_nodeptr() {
                Some(p) => if p != rf.d.ptrs[*n] { return Some(format!("item {}: expected node {} {}, got node {:?} {}; whole result expected {}, got {}", i + 1, n, rf.d.ptrs[*n].to_string(), rf.d.index_of(&p), p.to_string(), exp(), clip(&text))); },
                None => return Some(format!("item {}: expected a node, got {}", i + 1, it.to_string())),
            },
            V::Fun(_) => if it.as_nodeptr().is_some() { return Some(format!("item {}: expected a function, got a node", i + 1)); },
            v => {
                if it.as_nodeptr().is_some() { return Some(format!("item {}: expected {} {}, got a node", i + 1, kind_name(v), rf.show(v).unwrap_or_default())); }
                if let Some(e) = rf.show(v) { if it.to_string() != e { return Some(format!("item {}: expected {} {}, got {}; whole result {}", i + 1, kind_name(v), e, it.to_string(), clip(&text))); } }
            }
        }
    }
    if let Some(e) = rf.show_seq(w) { if text != e { return Some(format!("expected {}, got {}", clip(&e), clip(&text))); } }
    None
}

pub fn real(n: &NodePtr, src: &str) -> Result<Sequence, String> { n.eval_xpath(src).map_err(|e| e.to_string()) }

fn style(r: &mut Rng) -> Style {
    match r.below(4) {
        0 => Style { paren: Paren::Full, space: Space::Single, abbrev: false, any_quote: true },
        1 => Style { paren: Paren::Random, space: Space::Single, abbrev: true, any_quote: true },
        _ => Style { paren: Paren::Min, space: Space::Single, abbrev: true, any_quote: true },
    }
}

/// Evaluates one expression on one node; a difference is narrowed down to
/// the smallest sub-expression that shows one.
pub fn judge(cx: &mut Cx, r: &mut Rng, bn: &Bench, e: &E, ctx: usize) -> Outcome {
    let st = style(r);
    if r.chance(1, 12) {
        // once more, with what must be as it was before when it has been evaluated
        let w = surrounded(r, e);
        cx.count("evaluated among other variables, the variables and the context looked at afterwards");
        let src = crate::ast::render(&w, r, st);
        return judge_src(cx, r, bn, &w, &src, ctx);
    }
    let src = crate::ast::render(e, r, st);
    judge_src(cx, r, bn, e, &src, ctx)
}

/// The expression where further variables are in scope, followed by the
/// variables, the context item, its position and their number.
fn surrounded(r: &mut Rng, e: &E) -> E {
    let n = if r.chance(1, 6) { r.below(40) } else { r.below(6) };
    let vs: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
    let mut after = vec![e.clone()];
    if r.chance(1, 4) { after.push(e.clone()); }
    for v in &vs { if n < 8 || r.chance(1, 3) { after.push(var(v)); } }
    after.push(call("position", vec![]));
    after.push(call("last", vec![]));
    after.push(E::Ctx);
    let body = b(Op::Bang, E::Seq((0..1 + r.below(3)).map(|_| E::Ctx).collect()), E::Seq(after));
    if vs.is_empty() { return body; }
    let bound: Vec<(String, E)> = vs.into_iter().enumerate().map(|(i, v)| (v, match i % 3 { 0 => E::Int(i as i64 + 1000), 1 => E::Str(format!("v{}", i)), _ => E::Seq(vec![E::Int(i as i64), E::Ctx]) })).collect();
    if r.chance(1, 3) {
        // parameters rather than bindings
        let ps = bound.iter().map(|x| (x.0.clone(), None)).collect();
        let fixed: Vec<Option<E>> = bound.into_iter().map(|x| Some(x.1)).collect();
        return E::Dyn(Box::new(E::Inline(ps, None, Box::new(body))), fixed);
    }
    E::Let(bound, Box::new(body))
}

pub fn judge_src(cx: &mut Cx, r: &mut Rng, bn: &Bench, e: &E, src: &str, ctx: usize) -> Outcome {
    cx.note(&format!("{}\n  on node {} of {}", src, ctx, bn.text));
    let mut rf = Ref::new(&bn.d);
    let want = rf.top(e, ctx);
    if let Err(Er::Unsupported("too large")) | Err(Er::Unsupported("too long")) = want { cx.count("skipped: too large"); return Ok(()); }
    if let Err(Er::Unsupported(u)) = want {
        // the model stopped, so it does not tell how long the evaluation takes
        if loops(e) > 4 { cx.count(&format!("skipped: {}", u)); return Ok(()); }
    }
    let got = real(&bn.d.ptrs[ctx], src);
    match compare(&rf, &want, &got) {
        Verdict::Values(n) => {
            cx.count(match n { 0 => "result: empty", 1 => "result: one item", _ => "result: several items" });
            features(e, &mut |f| cx.count(&f));
            cx.eval(if size(e) > 2 { Some(src) } else { None });
            if cx.samples.len() < 6 && n > 0 && size(e) > 3 { cx.sample(format!("{} => {}", src, got.unwrap().to_string())); }
            Ok(())
        }
        Verdict::Error => { cx.count("result: error"); cx.eval(Some(src)); Ok(()) }
        Verdict::Skip(u) => { cx.count(&format!("skipped: {}", u)); Ok(()) }
        Verdict::Differ(what) => {
            let mut best = (size(e), src.to_string(), what);
            narrow(r, bn, e, ctx, &mut best, 0);
            violation(format!("{}\n  evaluated on node {} ({}) of {}\n  {}\n  (found in {})", best.1, ctx, clip(&bn.d.ptrs[ctx].to_string()), bn.text, best.2, src))
        }
    }
}

/// How many variables an expression lets run over items.
fn loops(e: &E) -> usize {
    (match e { E::For(bs, _) | E::Quant(_, bs, _) => bs.len(), E::Bin(Op::Bang, _, _) => 1, _ => 0 }) + crate::gen::children(e).into_iter().map(loops).sum::<usize>()
}

fn narrow(r: &mut Rng, bn: &Bench, e: &E, ctx: usize, best: &mut (usize, String, String), depth: usize) {
    if depth > 12 { return; }
    for c in children(e) {
        let src = canon(c);
        let mut rf = Ref::new(&bn.d);
        let want = rf.top(c, ctx);
        if let Err(Er::Unsupported(_)) = want { narrow(r, bn, c, ctx, best, depth + 1); continue; }
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real(&bn.d.ptrs[ctx], &src))) { Ok(g) => g, Err(_) => continue };
        if let Verdict::Differ(w) = compare(&rf, &want, &got) {
            if size(c) < best.0 { *best = (size(c), src, w); }
        }
        narrow(r, bn, c, ctx, best, depth + 1);
    }
}

/// Cases of the common shape: one document, several expressions, each on a node of it.
pub fn drive(cx: &mut Cx, r: &mut Rng, f: Flavor, big: usize, per: usize, go: &mut dyn FnMut(&mut G, &mut Cx) -> E) -> Outcome {
    let bn = match bench(cx, r, f, big) { Ok(b) => b, Err(e) => return violation(e) };
    for _ in 0..per {
        let ctx = pick_ctx(r, &bn.d);
        let e = telling(r, &bn, ctx, &mut |r| { let mut g = G::new(r, &bn.d); go(&mut g, cx) });
        judge(cx, r, &bn, &e, ctx)?;
    }
    Ok(())
}

/// Draws again, a few times, when the expected result is the empty sequence:
/// little can go visibly wrong there.
pub fn telling(r: &mut Rng, bn: &Bench, ctx: usize, go: &mut dyn FnMut(&mut Rng) -> E) -> E {
    let mut e = go(r);
    for _ in 0..12 {
        if r.chance(1, 12) { break; }
        match Ref::new(&bn.d).top(&e, ctx) { Ok(v) if v.is_empty() => e = go(r), _ => break }
    }
    e
}

pub fn pick_ctx(r: &mut Rng, d: &Doc) -> usize {
    match r.below(3) {
        0 => { let e = d.elems(); if e.is_empty() { 0 } else { *r.pick(&e) } }
        1 => d.elems().into_iter().next().unwrap_or(0),
        _ => r.below(d.nodes.len()),
    }
}
