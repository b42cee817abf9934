//! Purity and agreement of queries (C12), memory release (C13), and queries
//! in edit histories (C34).
use crate::ast::canon;
use crate::forest::Forest;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::{violation, Cx, Outcome};
use crate::xbench::*;
use amxml::dom::{new_document, NodePtr};
use amxml::xpath::Sequence;

// ---------------------------------------------------------------------
// C12

/// A random expression, of any kind, as text.
fn some_expr(r: &mut Rng, d: &Doc) -> String {
    let mut g = G::new(r, d);
    let k = g.r.below(14);
    let dp = 1 + g.r.below(3);
    match k {
        0 => { let e = crate::cxpath::failing(&mut g); canon(&e) }
        1 => g.r.s(&["1 +", "//", "a[", "nosuch(1)", "$unbound", "count(", "'x", "a b", "1 idiv 0", "(1, 2) + 1", "'a' + 1", "exactly-one(())", ""]),
        2 | 3 => { let e = g.path(1); canon(&e) }
        4 => { let e = crate::cxpath::shuffled(&mut g); canon(&e) }
        5 => { let x = crate::cxpath::shuffled(&mut g); let y = g.plain(1); canon(&crate::ast::E::Seq(vec![x, y])) }
        6 | 7 => { let e = g.nodes(dp); canon(&e) }
        _ => { let e = g.any(dp); canon(&e) }
    }
}

/// Another expression that looks much the same.
fn look_alike(r: &mut Rng, q: &str) -> String {
    let mut v: Vec<char> = q.chars().collect();
    let at = |v: &Vec<char>, f: &dyn Fn(char) -> bool| -> Vec<usize> { (0..v.len()).filter(|i| f(v[*i])).collect() };
    for _ in 0..8 {
        let k = r.below(8);
        let c = match k { 0 | 1 => at(&v, &|c| c == ' '), 2 => at(&v, &|c| c.is_ascii_digit()), 3 => at(&v, &|c| c.is_alphabetic()), 4 => at(&v, &|c| "+-*<>=!|,/".contains(c)), 5 => at(&v, &|c| c == '\'' || c == '"'), _ => (0..v.len()).collect() };
        if c.is_empty() { continue; }
        let i = *r.pick(&c);
        match k {
            0 => v.insert(i, *r.pick(&[' ', ' ', '\n', '\t'])),
            1 => { v.remove(i); }
            2 => v[i] = (b'0' + r.below(10) as u8) as char,
            3 => v[i] = if r.chance(1, 2) { if v[i].is_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() } } else { *r.pick(&['a', 'b', 'c', 'd', 'x']) },
            4 => v[i] = *r.pick(&['+', '-', '*', '<', '>', '=', ',', '|', '/']),
            5 => { if v[i] == '"' { v[i] = '\'' } else { v[i] = '"' } }
            6 => v.insert(i, ' '),
            _ => { v.remove(i); }
        }
        break;
    }
    v.into_iter().collect()
}

/// What can be observed of a result.
#[derive(PartialEq, Clone)]
struct Seen { text: String, items: Vec<(String, Option<NodePtr>)> }
impl std::fmt::Debug for Seen {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.text) }
}
fn seen(q: &Sequence) -> Seen { Seen { text: q.to_string(), items: (0..q.len()).map(|i| { let it = q.get_item(i); (it.to_string(), it.as_nodeptr()) }).collect() } }
fn see(n: &NodePtr, q: &str) -> Result<Seen, String> { real(n, q).map(|s| seen(&s)) }

/// What can be observed of a tree: nodes by identity, contents, order.
fn tree_state(root: &NodePtr) -> (M, String, Vec<NodePtr>, Vec<Option<NodePtr>>) {
    let d = Doc::of(root);
    let par = d.ptrs.iter().map(|p| p.parent()).collect();
    (snapshot(root), root.to_string(), d.ptrs, par)
}

pub fn c12(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let f = *r.pick(&[Flavor::Plain, Flavor::Ns, Flavor::Lang]);
    let bn = match bench(cx, r, f, 20) { Ok(b) => b, Err(e) => return violation(e) };
    let twin = if bn.text.contains("(detached") { None } else { new_document(&bn.text).ok() };
    let td = twin.as_ref().map(|t| Doc::of(t));
    let before = tree_state(&bn.root);
    let mut kept: Vec<(String, usize, Result<Sequence, String>, Result<Seen, String>)> = vec![];
    let k = 4 + r.below(8);
    let mut uniq = r.below(1_000_000_000);
    for _ in 0..k {
        let ctx = pick_ctx(r, &bn.d);
        let q = if !kept.is_empty() && r.chance(1, 4) { kept[r.below(kept.len())].0.clone() }
            else if !kept.is_empty() && r.chance(1, 3) { cx.count("an expression like an earlier one"); let i = kept.len() - 1 - r.below(kept.len().min(3)); look_alike(r, &kept[i].0) }
            else if r.chance(1, 8) { let w = r.s(&["a b", "a  b", " a", "b ", "a\n b", "A b", "a\tb", "  ", " "]); r.s(&["'W'", "string-length('W')", "concat('W', \"W\")", "('W', 'x') = 'W'", "map{'W': 1}?*", "let $v := 'W' return $v", "//*[. = 'W']", "(: W :) 'W'"]).replace('W', &w) }
            else { some_expr(r, &bn.d) };
        if crate::csyntax::big_range(&q) || crate::csyntax::heavy(&q) { continue; }
        cx.note(&format!("{}\n  on node {} of {}\n  after {:?}", q, ctx, bn.text, kept.iter().map(|k| (&k.0, k.1)).collect::<Vec<_>>()));
        let n = &bn.d.ptrs[ctx];
        let res = real(n, &q);
        let s = res.as_ref().map(|x| seen(x)).map_err(|e| e.clone());
        cx.eval(Some(&q));
        let at = || format!("{}\n  on node {} of {}", q, ctx, bn.text);

        // the entry points agree, in any order
        let mut order = [0, 1, 2, 3];
        for i in (1..4).rev() { let j = r.below(i + 1); order.swap(i, j); }
        for o in order {
            match o {
                0 => {
                    let again = see(n, &q);
                    cx.count("evaluated again");
                    if again.is_ok() != s.is_ok() || again.is_ok() && again != s { return violation(format!("the second evaluation gives {:?}, the first gave {:?}: {}", again, s, at())); }
                }
                1 => {
                    let first = n.get_first_node(&q);
                    cx.count(if first.is_some() { "first node" } else { "no first node" });
                    let want = match &s { Ok(s) => s.items.iter().filter_map(|i| i.1.clone()).next(), Err(_) => None };
                    if first != want { return violation(format!("get_first_node gives {:?}, expected {:?}: {}", first.map(|p| p.to_string()), want.map(|p| p.to_string()), at())); }
                }
                2 => {
                    let set = n.get_nodeset(&q).map_err(|e| e.to_string());
                    match (&s, &set) {
                        (Err(_), Err(_)) => cx.count("all entry points fail"),
                        (Ok(s), Ok(v)) => {
                            let want: Vec<NodePtr> = s.items.iter().filter_map(|i| i.1.clone()).collect();
                            cx.count("node set");
                            if *v != want { return violation(format!("get_nodeset gives {:?}, the result is {}: {}", v.iter().map(|p| p.to_string()).collect::<Vec<_>>(), s.text, at())); }
                        }
                        (a, b) => return violation(format!("eval_xpath gives {:?}, get_nodeset {:?}: {}", a, b.as_ref().map(|v| v.len()), at())),
                    }
                }
                _ => {
                    let mut visited: Vec<NodePtr> = vec![];
                    let mut inner_ok = true;
                    let res = n.each_node(&q, |x: NodePtr| {
                        // a query inside the visit does not disturb it
                        if visited.len() < 3 { inner_ok &= x.eval_xpath("count(ancestor-or-self::node())").is_ok(); }
                        visited.push(x.rc_clone());
                    }).map_err(|e| e.to_string());
                    if !inner_ok { return violation(format!("a query inside the visit fails: {}", at())); }
                    match (&s, &res) {
                        (Err(_), Err(_)) => { if !visited.is_empty() { return violation(format!("each_node fails after visiting nodes: {}", at())); } }
                        (Ok(s), Ok(_)) => {
                            let want: Vec<NodePtr> = s.items.iter().filter_map(|i| i.1.clone()).collect();
                            cx.count("visit");
                            if visited != want { return violation(format!("each_node visits {:?}, the result is {}: {}", visited.iter().map(|p| p.to_string()).collect::<Vec<_>>(), s.text, at())); }
                        }
                        (a, b) => return violation(format!("eval_xpath gives {:?}, each_node {:?}: {}", a, b, at())),
                    }
                }
            }
        }
        // so does an expression that means the same and looks like no other
        if !q.trim().is_empty() && r.chance(1, 2) {
            uniq += 1;
            let w = match r.below(3) { 0 => format!("((: {} :){})", uniq, q), 1 => format!("({}(: {} :))", q, uniq), _ => format!("for $uniq{} in 1 return ({})", uniq, q) };
            let other = see(n, &w);
            cx.count("the same in other words");
            if other.is_ok() != s.is_ok() || other.is_ok() && other != s { return violation(format!("{} gives {:?}, {} gives {:?}\n  on node {} of {}\n  after {:?}", w, other, q, s, ctx, bn.text, kept.iter().map(|k| (&k.0, k.1)).collect::<Vec<_>>())); }
        }
        // an equal document answers equally
        if let Some(td) = &td {
            let other = see(&td.ptrs[ctx], &q);
            cx.count("equal document");
            let same = match (&s, &other) {
                (Err(_), Err(_)) => true,
                (Ok(a), Ok(b)) => a.text == b.text && a.items.len() == b.items.len() && a.items.iter().zip(&b.items).all(|(x, y)| match (&x.1, &y.1) { (Some(p), Some(q)) => bn.d.index_of(p) == td.index_of(q), (None, None) => x.0 == y.0, _ => false }),
                _ => false,
            };
            if !same { return violation(format!("an equal document gives {:?}, this one {:?}: {}", other, s, at())); }
        }
        kept.push((q, ctx, res, s));
    }
    // nothing has changed
    let after = tree_state(&bn.root);
    if before.0 != after.0 || before.1 != after.1 || before.2 != after.2 || before.3 != after.3 { return violation(format!("the document changed from {} to {} by {:?}", before.1, after.1, kept.iter().map(|k| &k.0).collect::<Vec<_>>())); }
    cx.count("tree unchanged");
    for (q, ctx, res, s) in &kept {
        let now = res.as_ref().map(|x| seen(x)).map_err(|e| e.clone());
        cx.count("earlier result unchanged");
        if now != *s { return violation(format!("the result of {} changed from {:?} to {:?}\n  on node {} of {}", q, s, now, ctx, bn.text)); }
    }
    for i in (0..kept.len()).rev() {
        let (q, ctx, _, s) = &kept[i];
        let now = see(&bn.d.ptrs[*ctx], q);
        cx.count("evaluated again later");
        if now.is_ok() != s.is_ok() || now.is_ok() && now != *s { return violation(format!("{} gave {:?}, later {:?}\n  on node {} of {}\n  all queries: {:?}", q, s, now, ctx, bn.text, kept.iter().map(|k| (&k.0, k.1)).collect::<Vec<_>>())); }
    }
    Ok(())
}

// ---------------------------------------------------------------------
// C13

#[derive(Debug)]
enum Act { Parse(String), Edit(u8, usize, usize, usize, String), Query(usize, usize, String), KeepResult(usize, usize, String), Keep(usize, usize), DropDoc(usize), DropKept(usize), Print(usize) }

struct World { docs: Vec<NodePtr>, kept: Vec<NodePtr>, results: Vec<Sequence> }

fn all_nodes(d: &NodePtr, v: &mut Vec<NodePtr>) {
    v.push(d.rc_clone());
    for a in d.attributes() { v.push(a); }
    for c in d.children() { all_nodes(&c, v); }
}

/// The name of an attribute: one of those there, or another.
fn attr_name(x: &NodePtr, j: usize) -> String {
    let a = x.attributes();
    if j % 3 != 0 && !a.is_empty() { return a[j / 3 % a.len()].name(); }
    if j % 2 == 0 { ["id", "k", "x"][j % 3].to_string() } else { format!("k{}", j % 20) }
}

fn act(w: &mut World, a: &Act) -> &'static str {
    let pick = |w: &World, d: usize, i: usize| -> Option<NodePtr> {
        if w.docs.is_empty() { return None; }
        let mut v = vec![];
        all_nodes(&w.docs[d % w.docs.len()], &mut v);
        Some(v.swap_remove(i % v.len()))
    };
    match a {
        Act::Parse(t) => match new_document(t) { Ok(d) => { w.docs.push(d); "parsed" } Err(_) => "parse failed" },
        Act::Edit(k, d, i, j, t) => {
            let (mut x, y) = match (pick(w, *d, *i), pick(w, d + k.clone() as usize, *j)) { (Some(x), Some(y)) => (x, y), _ => return "nothing to edit" };
            let (kx, ky) = (kind_of(&x), kind_of(&y));
            let plain = |k: Kind| !matches!(k, Kind::Doc | Kind::Attr | Kind::Other);
            match k % 6 {
                0 if matches!(kx, Kind::Elem | Kind::Doc) && plain(ky) => { x.append_child(&y); "append" }
                1 if kx != Kind::Attr && plain(ky) => { x.insert_as_previous_sibling(&y); "insert" }
                2 if kx != Kind::Attr && plain(ky) => { x.replace_with(&y); "replace" }
                3 => { if let Some(p) = x.parent() { p.delete_child(&x); } "delete" }
                4 if kx == Kind::Elem => { let n = attr_name(&x, *j); x.set_attribute(&n, t); "set attribute" }
                5 if kx == Kind::Elem => { let n = attr_name(&x, *j); x.delete_attribute(&n); "delete attribute" }
                _ => "no edit",
            }
        }
        Act::Query(d, i, q) => {
            let n = match pick(w, *d, *i) { Some(n) => n, None => return "nothing to query" };
            let mut seen = 0;
            let _ = n.get_first_node(q);
            let _ = n.get_nodeset(q);
            let _ = n.each_node(q, |_| seen += 1);
            match n.eval_xpath(q) { Ok(s) => { let _ = s.to_string(); "query" } Err(_) => "query failed" }
        }
        Act::KeepResult(d, i, q) => {
            let n = match pick(w, *d, *i) { Some(n) => n, None => return "nothing to query" };
            match n.eval_xpath(q) { Ok(s) => { w.results.push(s); "result kept" } Err(_) => "query failed" }
        }
        Act::Keep(d, i) => { if let Some(n) = pick(w, *d, *i) { w.kept.push(n); } "handle kept" }
        Act::DropDoc(d) => { if !w.docs.is_empty() { let k = d % w.docs.len(); w.docs.remove(k); } "document dropped" }
        Act::DropKept(d) => { if !w.kept.is_empty() { let k = d % w.kept.len(); w.kept.remove(k); } "handle dropped" }
        Act::Print(d) => { if !w.docs.is_empty() { let n = &w.docs[d % w.docs.len()]; let _ = (n.to_string(), n.to_pretty_string(), n.inner_xml()); } "printed" }
    }
}

fn run_acts(acts: &[Act], rev: bool, mut tell: Option<&mut Cx>) {
    let mut w = World { docs: vec![], kept: vec![], results: vec![] };
    for a in acts { let k = act(&mut w, a); if let Some(cx) = &mut tell { cx.count(k); } }
    let World { docs, kept, results } = w;
    if rev { drop(results); drop(kept); drop(docs); } else { drop(docs); drop(kept); drop(results); }
}

pub fn c13(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 3) { return one_handle(cx, r); }
    // a document only to generate expressions for
    let m = gen_m(r, Flavor::Plain, 14);
    let d0 = match new_document(&m.ser()) { Ok(d) => d, Err(e) => return violation(format!("{} rejected: {}", m.ser(), e.to_string())) };
    let g0 = Doc::of(&d0);
    let mut acts = vec![];
    let n = 3 + r.below(if cx.thorough { 30 } else { 14 });
    for i in 0..n {
        let (a, b2, c) = (r.below(8), r.below(1000), r.below(1000));
        acts.push(match if i == 0 { 0 } else { r.below(16) } {
            0 | 1 => { let t = { let m = gen_doc(r, &DocCfg { scale: 24, ..cfg(Flavor::Plain, 14) }); render(r, &m, true).text }; Act::Parse(if i > 0 && r.chance(1, 2) { crate::cxml::mutate(r, &t) } else { t }) }
            2..=5 => { let k = r.below(6) as u8; Act::Edit(k, a, b2, c, text_value(r, true)) }
            6..=8 => Act::Query(a, b2, some_expr(r, &g0)),
            9 | 10 => Act::KeepResult(a, b2, some_expr(r, &g0)),
            11 | 12 => Act::Keep(a, b2),
            13 => Act::DropDoc(a), 14 => Act::DropKept(a), _ => Act::Print(a),
        });
    }
    let text = acts.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join("\n");
    cx.note(&text);
    let rev = r.chance(1, 2);
    // once to let one-time allocations happen, then measured
    run_acts(&acts, rev, Some(cx));
    let (live0, blocks0) = (crate::alloc::live(), crate::alloc::blocks());
    run_acts(&acts, rev, None);
    let (live1, blocks1) = (crate::alloc::live(), crate::alloc::blocks());
    cx.eval(Some(&text));
    cx.count("balanced");
    if live1 != live0 || blocks1 != blocks0 { return violation(format!("{} bytes in {} blocks were not released after\n{}", live1 - live0, blocks1 - blocks0, text)); }
    Ok(())
}

/// One handle keeps its own subtree, not the rest of the document.
fn one_handle(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let n = 50 + r.below(200);
    let mut t = String::from("<root>");
    for i in 0..n { t.push_str(&format!("<item k=\"{}\"><name>thing number {}</name>some text<!-- note --></item>", i, i)); }
    t.push_str("</root>");
    let q = r.s(&["/root/item[3]", "//name[2]", "(//name)[7]", "(//@k)[4]", "(//text())[9]", "(//comment())[2]", "/root/item[last()]"]);
    let edit = r.chance(1, 2);
    cx.note(&format!("a handle to {} of a document with {} items, edited: {}", q, n, edit));
    let go = || -> Result<(i64, i64), String> {
        let live0 = crate::alloc::live();
        let d = new_document(&t).map_err(|e| e.to_string())?;
        if edit {
            if let Some(mut x) = d.get_first_node("/root/item[2]") { x.set_attribute("k", "new"); if let Some(y) = d.get_first_node("/root/item[5]") { x.append_child(&y); x.insert_as_next_sibling(&y); } }
        }
        let whole = crate::alloc::live() - live0;
        let h = match d.get_first_node(&q) { Some(h) => h, None => return Ok((0, whole)) };
        if kind_of(&h) == Kind::Attr || kind_of(&h) == Kind::Text || kind_of(&h) == Kind::Comment { let _ = h.value(); }
        drop(d);
        let rest = crate::alloc::live() - live0;
        let s = h.to_string();
        if h.parent().is_some() { return Err(format!("the parent of {} is still there", s)); }
        if crate::alloc::live() - live0 - s.capacity() as i64 > rest + 64 { return Err("using the handle took memory".into()); }
        Ok((rest, whole))
    };
    let _ = go();
    let live0 = crate::alloc::live();
    let (rest, whole) = match go() { Ok(x) => x, Err(e) => return violation(format!("{}: handle to {} (edited: {})", e, q, edit)) };
    let live1 = crate::alloc::live();
    cx.count("single handle");
    cx.eval(Some(&format!("{} {} {}", q, n, edit)));
    if rest > whole / 10 { return violation(format!("a handle to {} keeps {} of the document's {} bytes alive (edited: {})", q, rest, whole, edit)); }
    if live1 != live0 { return violation(format!("{} bytes not released after dropping the handle to {}", live1 - live0, q)); }
    Ok(())
}

// ---------------------------------------------------------------------
// C34

pub fn c34(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let mut f = match crate::cdom::start(cx, r) { Ok(f) => f, Err(e) => return violation(e) };
    let n = if cx.thorough { 2 + r.below(30) } else { 2 + r.below(12) };
    for _ in 0..n {
        if let Err(e) = f.step(r, cx, true) { return violation(format!("{}\nhistory:\n{}", e, f.log.join("\n"))); }
        if r.chance(1, 4) { continue; }
        if let Err(v) = ask(cx, r, &f) { return Err(crate::runner::Violation { what: format!("{}\nhistory:\n{}", v.what, f.log.join("\n")) }); }
    }
    cx.sample(f.log.join("; "));
    Ok(())
}

/// An edit at a visited node.
fn touch(k: usize, n: &NodePtr, i: usize) {
    let mut n = n.rc_clone();
    match k {
        0 => if let Some(p) = n.parent() { p.delete_child(&n); },
        1 => n.set_attribute("touched", &i.to_string()),
        2 => if kind_of(&n) != Kind::Attr { let c = n.rc_clone(); n.insert_as_next_sibling(&c); },
        3 => if kind_of(&n) != Kind::Attr { let c = n.rc_clone(); n.insert_as_previous_sibling(&c); },
        4 => if let (Some(p), true) = (n.parent(), kind_of(&n) != Kind::Attr) { p.append_child(&n); },
        5 => for c in n.children() { n.delete_child(&c); },
        6 => for a in n.attributes() { let nm = a.name(); n.delete_attribute(&nm); },
        7 => if let (Some(p), true) = (n.parent(), kind_of(&n) != Kind::Attr) { if let Some(c) = p.first_child() { if c != n { p.delete_child(&c); } } },
        _ => if let (Some(_), true) = (n.parent(), kind_of(&n) == Kind::Elem) { if let Some(c) = n.first_child() { n.replace_with(&c); } },
    }
}

/// A visitor that edits the tree visits what was selected, and leaves the
/// tree that the same edits leave on the node set taken beforehand.
fn editing_visitor(cx: &mut Cx, r: &mut Rng, text: &str, ctx: usize, q: &str) -> Outcome {
    let (a, b) = match (new_document(text), new_document(text)) { (Ok(a), Ok(b)) => (a, b), _ => return Ok(()) };
    let (da, db) = (Doc::of(&a), Doc::of(&b));
    if ctx >= da.nodes.len() || da.nodes.len() != db.nodes.len() { return Ok(()); }
    let k = r.below(9);
    let at = format!("{}\n  on node {} of {}\n  edit {} at each node", q, ctx, text, k);
    cx.note(&at);
    let set = match db.ptrs[ctx].get_nodeset(q) { Ok(s) => s, Err(_) => return Ok(()) };
    let want: Vec<Option<usize>> = set.iter().map(|p| db.index_of(p)).collect();
    let mut visited: Vec<Option<usize>> = vec![];
    let res = da.ptrs[ctx].each_node(q, |n: NodePtr| {
        visited.push(da.index_of(&n));
        if visited.len() < 200 { touch(k, &n, visited.len()); }
    });
    for (i, n) in set.iter().enumerate() { if i + 1 < 200 { touch(k, n, i + 1); } }
    cx.count("editing visitor");
    if visited.len() > 1 { cx.count("editing visitor of several nodes"); }
    if res.is_err() { return violation(format!("each_node fails when its visitor edits the tree: {}", at)); }
    if visited != want { return violation(format!("each_node visits the nodes {:?}, it selected {:?}: {}", visited, want, at)); }
    if a.to_string() != b.to_string() { return violation(format!("the visitor's edits leave {}, the same edits on the node set {}: {}", a.to_string(), b.to_string(), at)); }
    Ok(())
}

fn ask(cx: &mut Cx, r: &mut Rng, f: &Forest) -> Outcome {
    let roots: Vec<usize> = f.roots().into_iter().filter(|i| matches!(f.n[*i].kind, Kind::Doc | Kind::Elem)).collect();
    if roots.is_empty() { return Ok(()); }
    for _ in 0..2 {
        let root = *r.pick(&roots);
        let m = f.tree(root);
        let text = m.ser();
        let p = f.p(root);
        let bn = Bench { d: Doc::of(&p), root: p, text: text.clone() };
        if bn.d.nodes.len() > 80 && (bn.d.nodes.len() > 300 || r.chance(3, 4)) { continue; }
        // a freshly parsed copy, where the text form determines the tree
        let fresh = if m.kind == Kind::Doc && m.merged() == m { new_document(&text).ok().map(|d| { let x = Doc::of(&d); (d, x) }) } else { None };
        for _ in 0..3 {
            let ctx = pick_ctx(r, &bn.d);
            let e = telling(r, &bn, ctx, &mut |r| {
                let mut g = G::new(r, &bn.d);
                let d = 1 + g.r.below(2);
                match g.r.below(6) { 0 => g.any(d), 1 => crate::cxpath::shuffled(&mut g), 2 => { let x = g.nodes(1); crate::ast::call("count", vec![x]) } 3 => g.nodes(d), _ => g.path(d) }
            });
            judge(cx, r, &bn, &e, ctx)?;
            if let Some((_keep, fd)) = &fresh {
                if fd.nodes.len() != bn.d.nodes.len() { return violation(format!("the edited tree has {} nodes, a fresh parse of {} has {}", bn.d.nodes.len(), text, fd.nodes.len())); }
                let q = canon(&e);
                cx.note(&format!("{}\n  on node {} of {} and of a fresh parse", q, ctx, text));
                let (a, b) = (see(&bn.d.ptrs[ctx], &q), see(&fd.ptrs[ctx], &q));
                cx.count("compared with a fresh parse");
                let same = match (&a, &b) {
                    (Err(_), Err(_)) => true,
                    (Ok(x), Ok(y)) => x.items.len() == y.items.len() && x.items.iter().zip(&y.items).all(|(i, j)| match (&i.1, &j.1) { (Some(p), Some(q)) => bn.d.index_of(p) == fd.index_of(q), (None, None) => i.0 == j.0, _ => false }),
                    _ => false,
                };
                if !same { return violation(format!("{} gives {:?} on the edited tree, {:?} on a fresh parse\n  on node {} of {}", q, a, b, ctx, text)); }
                if r.chance(1, 2) {
                    let q = if r.chance(1, 2) { q } else { r.s(&["//*", "//node()", "//*[1]", "*", "descendant-or-self::node()", "//@*", "//*[*]", "following::*", "..//*"]) };
                    editing_visitor(cx, r, &text, ctx, &q)?;
                }
            }
        }
    }
    Ok(())
}
