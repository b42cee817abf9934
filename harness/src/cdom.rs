//! Checks on edit histories (C07, C08, C09).
use crate::forest::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::{violation, Cx, Outcome};

pub fn start(cx: &mut Cx, r: &mut Rng) -> Result<Forest, String> {
    let mut f = Forest::new();
    for _ in 0..1 + r.below(3) {
        let t = f.random_text(r);
        cx.note(&t);
        f.add_doc(&t)?;
    }
    Ok(f)
}

fn with_log(e: String, f: &Forest) -> Outcome {
    violation(format!("{}\nhistory:\n{}", e, f.log.join("\n")))
}

fn key(f: &Forest) -> String { f.log.join(";") }

pub fn c07(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let mut f = match start(cx, r) { Ok(f) => f, Err(e) => return violation(e) };
    let n = if cx.thorough { 2 + r.below(60) } else { 2 + r.below(20) };
    for _ in 0..n {
        let res = f.step(r, cx, true);
        // the step's own expectations are C08's; here the invariants decide
        if let Err(e) = f.invariants(cx) { return with_log(e, &f); }
        if let Err(e) = res { return with_log(e, &f); }
        // a removed node has no parent; a held node stays usable
        for i in f.live() {
            let p = f.p(i);
            if f.n[i].parent.is_none() && p.parent().is_some() { return with_log(format!("node {} was removed but still has a parent", i), &f); }
            if p.name() != f.n[i].name || p.value() != f.n[i].value { return with_log(format!("held node {} changed", i), &f); }
        }
        for i in f.roots() { let _ = (f.p(i).to_string(), f.p(i).to_pretty_string(), f.p(i).root_element(), f.p(i).namespace_uri()); }
        cx.eval(Some(&key(&f)));
    }
    cx.sample(f.log.join("; "));
    Ok(())
}

pub fn c08(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let mut f = match start(cx, r) { Ok(f) => f, Err(e) => return violation(e) };
    let n = if cx.thorough { 2 + r.below(60) } else { 2 + r.below(20) };
    for _ in 0..n {
        if let Err(e) = f.step(r, cx, false) { return with_log(e, &f); }
        if let Err(e) = f.compare(cx) { return with_log(e, &f); }
        for i in f.roots() {
            let want = f.tree(i);
            if want.kind == Kind::Attr { continue; }
            let got = f.p(i).to_string();
            if got != want.ser() { return with_log(format!("tree {} is {}, expected {}", i, got, want.ser()), &f); }
        }
        cx.eval(Some(&key(&f)));
    }
    cx.sample(f.log.join("; "));
    Ok(())
}

/// Documents of thousands of nodes, edited a little: numbers and comparisons against the tree as it is.
fn large(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let n = 400 + r.below(3000);
    let mut t = String::from("<r>");
    let mut open: Vec<&str> = vec![];
    for i in 0..n {
        match r.below(6) {
            0 | 1 if open.len() < 30 => { t.push_str("<e>"); open.push("e"); }
            2 | 3 if !open.is_empty() => { t.push_str("</e>"); open.pop(); }
            4 => t.push_str(&format!("<f k='{}'/>", i)),
            _ => t.push_str("<!--c-->x"),
        }
    }
    for _ in &open { t.push_str("</e>"); }
    t.push_str("</r>");
    cx.note(&t);
    let root = match amxml::dom::new_document(&t) { Ok(d) => d, Err(e) => return violation(format!("{} is rejected: {}", t, e.to_string())) };
    let mut what = vec![format!("document of {} pieces", n)];
    for round in 0..3 {
        if round > 0 {
            let d = Doc::of(&root);
            let es = d.elems();
            let (a, b) = (*r.pick(&es), *r.pick(&es));
            let (mut pa, pb) = (d.ptrs[a].rc_clone(), d.ptrs[b].rc_clone());
            match r.below(4) {
                0 => { what.push(format!("node {} appended to node {}", b, a)); pa.append_child(&pb); }
                1 => { what.push(format!("attribute set on node {}", a)); pa.set_attribute("new", "1"); }
                2 if d.nodes[b].end - b < 200 => { what.push(format!("copy of node {} before node {}", b, a)); pa.insert_as_previous_sibling(&pb); }
                _ => if d.nodes[b].end - b < 200 { if let Some(p) = pb.parent() { what.push(format!("node {} removed", b)); p.delete_child(&pb); } },
            }
        }
        let d = Doc::of(&root);
        let path = |i: usize| -> String {
            let mut s = String::new();
            let mut i = i;
            while let Some(p) = d.nodes[i].parent {
                s = if d.nodes[i].kind == Kind::Attr { format!("/@*[{}]", d.nodes[p].attrs.iter().position(|x| *x == i).unwrap() + 1) } else { format!("/node()[{}]", d.nodes[p].kids.iter().position(|x| *x == i).unwrap() + 1) } + &s;
                i = p;
            }
            if s.is_empty() { "(/)".into() } else { s }
        };
        let m = d.nodes.len();
        let mut last: Option<(usize, i64)> = None;
        let all = r.chance(1, 4);
        for i in 0..m {
            if !all && !r.chance(1, 6) { continue; }
            let k = d.ptrs[i].document_order();
            if let Some((j, l)) = last { if l >= k { return violation(format!("document order of node {} is {}, of node {} after it {}\n{:?}\n{}", path(j), l, path(i), k, what, t)); } }
            last = Some((i, k));
        }
        for _ in 0..12 {
            let a = r.below(m);
            let b = if r.chance(1, 2) { r.below(m) } else { (a + 1 + r.below(3)).min(m - 1) };
            for (op, want) in [("is", a == b), ("<<", a < b), (">>", a > b)] {
                let q = format!("{} {} {}", path(a), op, path(b));
                let got = match root.eval_xpath(&q) { Ok(s) => s.to_string(), Err(e) => format!("error: {}", e.to_string()) };
                cx.eval(if a != b { Some(&q) } else { None });
                cx.count("comparison in a large document");
                if got != want.to_string() { return violation(format!("{} gives {}, expected {}\n{:?}\n{}", q, got, want, what, t)); }
            }
        }
        let pick: Vec<usize> = (0..2 + r.below(30)).map(|_| r.below(m)).collect();
        let q = format!("({})/.", pick.iter().map(|k| path(*k)).collect::<Vec<_>>().join(", "));
        let mut want = pick.clone();
        want.sort();
        want.dedup();
        match root.get_nodeset(&q) {
            Ok(v) => if v != want.iter().map(|k| d.ptrs[*k].rc_clone()).collect::<Vec<_>>() { return violation(format!("{} gives nodes out of order\n{:?}\n{}", q, what, t)); },
            Err(e) => return violation(format!("{} fails: {}", q, e.to_string())),
        }
        cx.count("shuffled set of a large document");
    }
    Ok(())
}

/// A document of more nodes than fit sixteen bits, flat or of two levels.
fn huge(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let n = 60_000 + r.below(25_000);
    let per = if r.chance(1, 2) { 1 } else { 2 + r.below(300) };
    let mut t = String::from("<r>");
    let mut groups = 0;
    let mut i = 0;
    while i < n {
        if per == 1 { t.push_str("<f/>"); i += 1; groups += 1; continue; }
        t.push_str("<g>");
        for _ in 0..per { t.push_str("<f/>"); }
        t.push_str("</g>");
        i += per + 1;
        groups += 1;
    }
    t.push_str("</r>");
    cx.note(&format!("r of {} groups of {}", groups, per));
    let root = match amxml::dom::new_document(&t) { Ok(d) => d, Err(e) => return violation(format!("{} groups of {} are rejected: {}", groups, per, e.to_string())) };
    let mut last = root.document_order();
    let mut all = vec![root.rc_clone()];
    let mut at = 0;
    // the nodes in document order, by way of the children
    let mut stack: Vec<amxml::dom::NodePtr> = root.children().into_iter().rev().collect();
    while let Some(p) = stack.pop() {
        at += 1;
        let k = p.document_order();
        if k <= last { return violation(format!("document order of node {} of {} groups of {} is {}, of the node before it {}", at, groups, per, k, last)); }
        last = k;
        for c in p.children().into_iter().rev() { stack.push(c); }
        all.push(p);
    }
    cx.add("numbers in documents of over 60000 nodes", at as u64);
    let m = groups;
    for _ in 0..3 {
        let (a, b) = (1 + r.below(m), if r.chance(1, 2) { m - r.below(3.min(m)) } else { 1 + r.below(m) });
        for (op, want) in [("<<", a < b), (">>", a > b)] {
            let q = format!("/r/*[{}] {} /r/*[{}]", a, op, b);
            let got = match root.eval_xpath(&q) { Ok(s) => s.to_string(), Err(e) => format!("error: {}", e.to_string()) };
            cx.eval(if a != b { Some(&q) } else { None });
            if got != want.to_string() { return violation(format!("{} gives {}, expected {}, in r of {} groups of {}", q, got, want, groups, per)); }
        }
        let q = format!("(/r/*[{}] | /r/*[{}])[1]", b, a);
        let kids = root.children()[0].children();
        match root.get_first_node(&q) {
            Some(p) => if p != kids[a.min(b) - 1] { return violation(format!("{} is not the first of the two, in r of {} groups of {}", q, groups, per)); },
            None => return violation(format!("{} gives nothing, in r of {} groups of {}", q, groups, per)),
        }
    }
    cx.sample(format!("r of {} groups of {}", groups, per));
    Ok(())
}

pub fn c09(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, 60) { return if r.chance(1, 20) { huge(cx, r) } else { large(cx, r) }; }
    let mut f = match start(cx, r) { Ok(f) => f, Err(e) => return violation(e) };
    let n = if cx.thorough { 1 + r.below(30) } else { 1 + r.below(12) };
    for step in 0..=n {
        if step > 0 { if let Err(e) = f.step(r, cx, true) { return with_log(e, &f); } }
        if step < n && r.chance(1, 3) { continue; } // several edits without a query between
        for root in f.roots() {
            let mut ord = vec![];
            f.order(root, &mut ord);
            // numbers: asked in a random order, since they are computed on demand
            let mut nums = vec![0i64; ord.len()];
            let mut idx: Vec<usize> = (0..ord.len()).collect();
            for k in (1..idx.len()).rev() { let j = r.below(k + 1); idx.swap(k, j); }
            for k in &idx { nums[*k] = f.p(ord[*k]).document_order(); }
            for k in 1..nums.len() {
                if nums[k - 1] >= nums[k] {
                    return with_log(format!("document order of node {} is {}, of the following node {} it is {}\n{}", f.path(ord[k - 1]), nums[k - 1], f.path(ord[k]), nums[k], f.tree(root).ser()), &f);
                }
            }
            cx.add("order pairs by number", (nums.len() * nums.len().saturating_sub(1) / 2) as u64);
            // node comparison operators
            if f.tree(root).kind == Kind::Attr { continue; }
            for _ in 0..6 {
                let (a, b) = (r.below(ord.len()), r.below(ord.len()));
                let ctx = f.p(ord[r.below(ord.len())]);
                let (pa, pb) = (f.path(ord[a]), f.path(ord[b]));
                for (op, want) in [("is", a == b), ("<<", a < b), (">>", a > b)] {
                    let q = format!("{} {} {}", pa, op, pb);
                    cx.note(&format!("{}\non {}\nhistory:\n{}", q, f.tree(root).ser(), f.log.join("\n")));
                    let got = match ctx.eval_xpath(&q) { Ok(s) => s.to_string(), Err(e) => format!("error: {}", e.to_string()) };
                    cx.eval(if a != b { Some(&q) } else { None });
                    cx.count(op);
                    if got != want.to_string() { return with_log(format!("{} gives {}, expected {}\n{}", q, got, want, f.tree(root).ser()), &f); }
                }
            }
            // a set of nodes in shuffled order comes back in document order
            let pick: Vec<usize> = (0..1 + r.below(6)).map(|_| r.below(ord.len())).collect();
            let q = format!("({})/.", pick.iter().map(|k| f.path(ord[*k])).collect::<Vec<_>>().join(", "));
            let mut want: Vec<usize> = pick.clone();
            want.sort();
            want.dedup();
            cx.note(&format!("{}\non {}", q, f.tree(root).ser()));
            match f.p(root).get_nodeset(&q) {
                Ok(v) => {
                    let w: Vec<_> = want.iter().map(|k| f.p(ord[*k])).collect();
                    if v != w { return with_log(format!("{} gives {:?}, expected the nodes {:?}\n{}", q, v.iter().map(|x| x.to_string()).collect::<Vec<_>>(), want.iter().map(|k| f.path(ord[*k])).collect::<Vec<_>>(), f.tree(root).ser()), &f); }
                }
                Err(e) => return with_log(format!("{} fails: {}", q, e.to_string()), &f),
            }
            cx.count("shuffled sets");
        }
    }
    cx.sample(f.log.join("; "));
    Ok(())
}

/// Operands the histories leave out, on fixed inputs.
pub fn c07_known() -> Vec<(&'static str, String)> {
    let mut v = vec![];
    let d = amxml::dom::new_document("<a><b/><c y='2'/></a>").unwrap();
    let (b, y) = (d.get_first_node("//b").unwrap(), d.get_first_node("//@y").unwrap());
    b.append_child(&y);
    if b.children().contains(&y) && d.get_first_node("//c").unwrap().attributes().contains(&y) {
        v.push(("append-attribute", "b.append_child(&y) with the attribute node y of c makes y a child of b and leaves it an attribute of c: it is listed by two parents".into()));
    }
    let e = amxml::dom::new_document("<z/>").unwrap();
    b.append_child(&e);
    if b.children().contains(&e) && e.parent().is_none() {
        v.push(("append-document", "b.append_child(&e) with the document root e makes e a child of b, but e.parent() is None".into()));
    }
    v
}
