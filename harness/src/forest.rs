//! Edit histories over several documents, mirrored in a reference forest.
use crate::model::*;
use crate::rng::Rng;
use crate::runner::Cx;
use amxml::dom::{new_document, NodePtr};

pub struct FNode {
    pub kind: Kind,
    pub name: String,
    pub value: String,
    pub parent: Option<usize>,
    pub attrs: Vec<usize>,
    pub kids: Vec<usize>,
    /// the caller's handle; None once the node is gone
    pub ptr: Option<NodePtr>,
}

pub struct Forest {
    pub n: Vec<FNode>,
    pub log: Vec<String>,
}

pub const NAMES: &[&str] = &["a", "b", "c", "d", "n:e"];
pub const ANAMES: &[&str] = &["id", "k", "x", "n:k", "xmlns:n", "lang", "xml:lang", "n:id", "K", "i", "idx", "xmlns", "n", "e:k"];

impl Forest {
    pub fn new() -> Forest { Forest { n: vec![], log: vec![] } }

    /// Registers a real tree, checking nothing.
    pub fn adopt(&mut self, p: &NodePtr, parent: Option<usize>) -> usize {
        let i = self.n.len();
        self.n.push(FNode { kind: kind_of(p), name: p.name(), value: p.value(), parent, attrs: vec![], kids: vec![], ptr: Some(p.rc_clone()) });
        for a in p.attributes().iter() {
            let j = self.n.len();
            self.n.push(FNode { kind: Kind::Attr, name: a.name(), value: a.value(), parent: Some(i), attrs: vec![], kids: vec![], ptr: Some(a.rc_clone()) });
            self.n[i].attrs.push(j);
        }
        for c in p.children().iter() {
            let j = self.adopt(c, Some(i));
            self.n[i].kids.push(j);
        }
        i
    }
    pub fn add_doc(&mut self, text: &str) -> Result<usize, String> {
        self.log.push(format!("parse {:?}", text));
        let d = new_document(text).map_err(|e| format!("document rejected: {} {:?}", e.to_string(), text))?;
        Ok(self.adopt(&d, None))
    }
    pub fn p(&self, i: usize) -> NodePtr { self.n[i].ptr.as_ref().unwrap().rc_clone() }
    pub fn live(&self) -> Vec<usize> { (0..self.n.len()).filter(|i| self.n[*i].ptr.is_some()).collect() }
    pub fn roots(&self) -> Vec<usize> { self.live().into_iter().filter(|i| self.n[*i].parent.is_none()).collect() }
    pub fn root_of(&self, mut i: usize) -> usize {
        while let Some(p) = self.n[i].parent { i = p; }
        i
    }
    pub fn is_under(&self, mut i: usize, anc: usize) -> bool {
        loop {
            if i == anc { return true; }
            match self.n[i].parent { Some(p) => i = p, None => return false }
        }
    }
    /// Nodes of the subtree in document order, attributes included.
    pub fn order(&self, i: usize, out: &mut Vec<usize>) {
        out.push(i);
        out.extend(self.n[i].attrs.iter());
        for k in &self.n[i].kids { self.order(*k, out); }
    }
    pub fn tree(&self, i: usize) -> M {
        let f = &self.n[i];
        let mut m = M::new(f.kind, &f.name, &f.value);
        for a in &f.attrs { m.attrs.push((self.n[*a].name.clone(), self.n[*a].value.clone())); }
        for k in &f.kids { m.kids.push(self.tree(*k)); }
        m
    }
    fn pos(&self, parent: usize, child: usize) -> Option<usize> { self.n[parent].kids.iter().position(|x| *x == child) }

    /// Model copy of a subtree bound to the real copy; the shapes must agree.
    fn copy(&mut self, src: usize, real: &NodePtr, parent: usize) -> Result<usize, String> {
        let i = self.n.len();
        let (k, n, v) = (self.n[src].kind, self.n[src].name.clone(), self.n[src].value.clone());
        self.n.push(FNode { kind: k, name: n, value: v, parent: Some(parent), attrs: vec![], kids: vec![], ptr: Some(real.rc_clone()) });
        let (ra, rk) = (real.attributes(), real.children());
        let (sa, sk) = (self.n[src].attrs.clone(), self.n[src].kids.clone());
        if ra.len() != sa.len() || rk.len() != sk.len() {
            return Err(format!("the copy of {:?} has {} attributes and {} children, the original has {} and {}", self.n[src].name, ra.len(), rk.len(), sa.len(), sk.len()));
        }
        for (a, s) in ra.iter().zip(sa) { let j = self.copy(s, a, i)?; self.n[i].attrs.push(j); }
        for (c, s) in rk.iter().zip(sk) { let j = self.copy(s, c, i)?; self.n[i].kids.push(j); }
        Ok(i)
    }

    fn insert_copy(&mut self, reference: usize, src: usize, after: bool) -> Result<(), String> {
        if let Some(par) = self.n[reference].parent {
            if let Some(at) = self.pos(par, reference) {
                let at = if after { at + 1 } else { at };
                let real = self.p(par).children();
                if real.len() != self.n[par].kids.len() + 1 {
                    return Err(format!("after inserting one sibling the parent has {} children, expected {}", real.len(), self.n[par].kids.len() + 1));
                }
                for s in self.live() {
                    if real[at] == self.p(s) { return Err("the inserted node is the source or another existing node, not a copy".into()); }
                }
                let c = self.copy(src, &real[at], par)?;
                self.n[par].kids.insert(at, c);
            }
        }
        Ok(())
    }

    fn label(&self, i: usize) -> String { format!("#{}{}", i, match self.n[i].kind { Kind::Elem => format!("<{}>", self.n[i].name), Kind::Attr => format!("@{}", self.n[i].name), k => format!("{:?}", k) }) }

    /// One random edit on the real forest and on the reference forest.
    pub fn step(&mut self, r: &mut Rng, cx: &mut Cx, forget: bool) -> Result<(), String> {
        let live = self.live();
        let elems: Vec<usize> = live.iter().cloned().filter(|i| self.n[*i].kind == Kind::Elem).collect();
        let content: Vec<usize> = live.iter().cloned().filter(|i| !matches!(self.n[*i].kind, Kind::Doc | Kind::Attr | Kind::Other)).collect();
        let parents: Vec<usize> = live.iter().cloned().filter(|i| matches!(self.n[*i].kind, Kind::Elem | Kind::Doc)).collect();
        if content.is_empty() || parents.is_empty() { return Ok(()); }
        let op = r.below(if forget { 27 } else { 24 });
        match op {
            0..=4 => {
                let p = *r.pick(&parents);
                // sometimes deliberately an ancestor or the node itself
                let c = if r.chance(1, 6) { let mut c = p; for _ in 0..r.below(4) { if let Some(x) = self.n[c].parent { c = x; } } c } else { *r.pick(&content) };
                if matches!(self.n[c].kind, Kind::Doc | Kind::Attr) { return Ok(()); }
                self.begin(cx, format!("{}.append_child({})", self.label(p), self.label(c)));
                self.p(p).append_child(&self.p(c));
                if self.is_under(p, c) { cx.count("append under itself"); return Ok(()); }
                cx.count("append");
                if let Some(old) = self.n[c].parent { let k = self.pos(old, c).unwrap(); self.n[old].kids.remove(k); if self.root_of(old) != self.root_of(p) { cx.count("append across trees"); } else { cx.count("append within tree"); } }
                self.n[c].parent = Some(p);
                self.n[p].kids.push(c);
            }
            5..=10 => {
                let t = if r.chance(1, 8) { *r.pick(&live) } else { *r.pick(&content) };
                let s = if r.chance(1, 6) { let mut c = t; for _ in 0..r.below(3) { if let Some(x) = self.n[c].parent { c = x; } } c } else { *r.pick(&content) };
                if matches!(self.n[s].kind, Kind::Doc | Kind::Attr) || self.n[t].kind == Kind::Attr { return Ok(()); }
                if self.tree(s).size() > 60 || self.live().len() > 400 { return Ok(()); }
                let after = op >= 8;
                self.begin(cx, format!("{}.insert_as_{}_sibling({})", self.label(t), if after { "next" } else { "previous" }, self.label(s)));
                let src_before = self.tree(s);
                if after { self.p(t).insert_as_next_sibling(&self.p(s)); } else { self.p(t).insert_as_previous_sibling(&self.p(s)); }
                cx.count(if self.n[t].parent.is_none() { "insert beside a root" } else if after { "insert next" } else { "insert previous" });
                if self.is_under(t, s) && self.n[t].parent.is_some() {
                    cx.count("insert a copy of an ancestor");
                    // the copy is of the source as it was before the call
                    return self.insert_copy_of_model(t, src_before, after);
                }
                self.insert_copy(t, s, after)?;
            }
            11..=13 => {
                let t = if r.chance(1, 10) { *r.pick(&live) } else { *r.pick(&content) };
                let s = *r.pick(&content);
                if self.n[t].kind == Kind::Attr || self.tree(s).size() > 60 || self.live().len() > 400 { return Ok(()); }
                self.begin(cx, format!("{}.replace_with({})", self.label(t), self.label(s)));
                let src_before = self.tree(s);
                self.p(t).replace_with(&self.p(s));
                let par = match self.n[t].parent { Some(p) => p, None => { cx.count("replace a root"); return Ok(()); } };
                cx.count("replace");
                let at = self.pos(par, t).unwrap();
                let real = self.p(par).children();
                if real.len() != self.n[par].kids.len() { return Err(format!("after replacing a child the parent has {} children, expected {}", real.len(), self.n[par].kids.len())); }
                self.n[par].kids.remove(at);
                self.n[t].parent = None;
                let c = self.bind_tree(&src_before, &real[at], par)?;
                self.n[par].kids.insert(at, c);
            }
            14..=17 => {
                let p = *r.pick(&parents);
                let c = if r.chance(1, 4) { *r.pick(&live) } else if let Some(k) = self.n[p].kids.get(r.below(self.n[p].kids.len().max(1))) { *k } else { *r.pick(&live) };
                self.begin(cx, format!("{}.delete_child({})", self.label(p), self.label(c)));
                self.p(p).delete_child(&self.p(c));
                if let Some(k) = self.pos(p, c) {
                    cx.count("delete");
                    self.n[p].kids.remove(k);
                    self.n[c].parent = None;
                } else { cx.count("delete of a node that is no child"); }
            }
            18..=21 => {
                if elems.is_empty() { return Ok(()); }
                let e = *r.pick(&elems);
                let name = if r.chance(1, 2) && !self.n[e].attrs.is_empty() { let a = *r.pick(&self.n[e].attrs); self.n[a].name.clone() } else { r.s(ANAMES) };
                let v = if r.chance(1, 3) { text_value(r, true) } else { word(r) };
                self.begin(cx, format!("{}.set_attribute({:?}, {:?})", self.label(e), name, v));
                self.p(e).set_attribute(&name, &v);
                let old = self.n[e].attrs.iter().position(|a| self.n[*a].name == name);
                let at = old.unwrap_or(self.n[e].attrs.len());
                let real = self.p(e).attributes();
                let want = self.n[e].attrs.len() + if old.is_some() { 0 } else { 1 };
                if real.len() != want { return Err(format!("after set_attribute the element has {} attributes, expected {}", real.len(), want)); }
                let m = M::new(Kind::Attr, &name, &v);
                let j = self.bind_tree(&m, &real[at], e)?;
                if let Some(k) = old {
                    cx.count("attribute replaced");
                    let o = self.n[e].attrs[k];
                    // the handle of the old attribute may or may not be the new one
                    if self.p(o) == real[at] { self.n[o].ptr = None; }
                    self.n[o].parent = None;
                    self.n[e].attrs[k] = j;
                } else { cx.count("attribute added"); self.n[e].attrs.push(j); }
            }
            22 | 23 => {
                if elems.is_empty() { return Ok(()); }
                let e = *r.pick(&elems);
                let name = if r.chance(2, 3) && !self.n[e].attrs.is_empty() { let a = *r.pick(&self.n[e].attrs); self.n[a].name.clone() } else { r.s(ANAMES) };
                self.begin(cx, format!("{}.delete_attribute({:?})", self.label(e), name));
                self.p(e).delete_attribute(&name);
                if let Some(k) = self.n[e].attrs.iter().position(|a| self.n[*a].name == name) {
                    cx.count("attribute deleted");
                    let o = self.n[e].attrs.remove(k);
                    self.n[o].parent = None;
                } else { cx.count("delete of a missing attribute"); }
            }
            24 => {
                let t = self.random_text(r);
                self.begin(cx, String::from("new document"));
                cx.count("new document");
                self.add_doc(&t)?;
            }
            _ => {
                // keep only some handles; whatever is not below one of them is dropped
                let keep: Vec<usize> = live.iter().cloned().filter(|_| r.chance(1, 3)).collect();
                if keep.is_empty() { return Ok(()); }
                self.begin(cx, format!("keep only the handles {:?}", keep));
                cx.count("handles dropped");
                let mut below = vec![];
                for k in &keep { self.order(*k, &mut below); }
                let set: std::collections::HashSet<usize> = below.into_iter().collect();
                let keepset: std::collections::HashSet<usize> = keep.iter().cloned().collect();
                for i in live.iter() {
                    if !keepset.contains(i) { self.n[*i].ptr = None; }
                }
                for i in live.iter() {
                    if set.contains(i) {
                        if let Some(p) = self.n[*i].parent { if !set.contains(&p) { self.n[*i].parent = None; cx.count("parent dropped"); } }
                    }
                }
                // regain handles from above
                let mut top = keep.clone();
                top.retain(|i| match self.n[*i].parent { Some(p) => !set.contains(&p), None => true });
                for i in top { self.rebind(i)?; }
            }
        }
        Ok(())
    }
    fn begin(&mut self, cx: &mut Cx, what: String) {
        self.log.push(what);
        let t = self.log.join("\n");
        cx.note(&t);
    }
    fn rebind(&mut self, i: usize) -> Result<(), String> {
        let p = self.p(i);
        let (a, c) = (p.attributes(), p.children());
        if a.len() != self.n[i].attrs.len() || c.len() != self.n[i].kids.len() {
            return Err(format!("node {} changed when unrelated handles were dropped", self.label(i)));
        }
        let (ai, ki) = (self.n[i].attrs.clone(), self.n[i].kids.clone());
        for (x, j) in a.iter().zip(ai) { self.n[j].ptr = Some(x.rc_clone()); }
        for (x, j) in c.iter().zip(ki) { self.n[j].ptr = Some(x.rc_clone()); self.rebind(j)?; }
        Ok(())
    }
    fn insert_copy_of_model(&mut self, reference: usize, m: M, after: bool) -> Result<(), String> {
        let par = self.n[reference].parent.unwrap();
        let at = self.pos(par, reference).unwrap() + if after { 1 } else { 0 };
        let real = self.p(par).children();
        if real.len() != self.n[par].kids.len() + 1 {
            return Err(format!("after inserting one sibling the parent has {} children, expected {}", real.len(), self.n[par].kids.len() + 1));
        }
        let c = self.bind_tree(&m, &real[at], par)?;
        self.n[par].kids.insert(at, c);
        Ok(())
    }
    fn bind_tree(&mut self, m: &M, real: &NodePtr, parent: usize) -> Result<usize, String> {
        if let Some(d) = tree_diff(m, &snapshot(real), "copy") { return Err(format!("the copy differs from the source: {}", d)); }
        let i = self.adopt(real, Some(parent));
        Ok(i)
    }
    pub fn random_text(&self, r: &mut Rng) -> String {
        let mut c = CFG_XPATH;
        c.names = NAMES;
        c.attr_names = &["id", "k", "x", "n:k", "lang", "xml:lang", "K"];
        c.max_nodes = 8;
        c.depth = 3;
        c.scale = 25;
        let d = gen_doc(r, &c);
        d.ser()
    }

    /// Structural invariants evaluated on the real nodes alone.
    pub fn invariants(&self, cx: &mut Cx) -> Result<(), String> {
        let live = self.live();
        let mut listed: Vec<(NodePtr, usize)> = vec![];
        for &i in &live {
            let p = self.p(i);
            for (what, list) in [("child", p.children()), ("attribute", p.attributes())] {
                for c in &list {
                    match c.parent() {
                        Some(q) if q == p => {}
                        Some(q) => return Err(format!("a {} of {} ({}) has another parent ({})", what, self.label(i), c.name(), q.name())),
                        None => return Err(format!("a {} of {} ({}) has no parent", what, self.label(i), c.name())),
                    }
                    cx.count("parent links checked");
                    for (o, by) in &listed { if o == c { return Err(format!("{} is listed by {} and by {}", c.name(), self.label(*by), self.label(i))); } }
                }
                for c in list { listed.push((c, i)); }
            }
            // parents lead to the root, without a cycle
            let mut cur = p.rc_clone();
            let mut n = 0;
            while let Some(q) = cur.parent() {
                if q == p { return Err(format!("{} is its own ancestor", self.label(i))); }
                let isin = q.children().iter().any(|k| *k == cur) || q.attributes().iter().any(|k| *k == cur);
                if !isin { return Err(format!("the parent of {} does not list it", cur.name())); }
                cur = q;
                n += 1;
                if n > 100_000 { return Err(format!("parents of {} never end", self.label(i))); }
            }
            if cur != p.root() { return Err(format!("root() of {} is not reached through parents", self.label(i))); }
        }
        Ok(())
    }

    /// The real forest equals the reference forest, node by node and by identity.
    pub fn compare(&self, cx: &mut Cx) -> Result<(), String> {
        for i in self.live() {
            let p = self.p(i);
            let f = &self.n[i];
            if kind_of(&p) != f.kind || p.name() != f.name || p.value() != f.value {
                return Err(format!("{} is now {:?} {:?} {:?}, expected {:?} {:?} {:?}", self.label(i), kind_of(&p), p.name(), p.value(), f.kind, f.name, f.value));
            }
            match (p.parent(), f.parent) {
                (None, None) => {}
                (Some(q), Some(j)) if q == self.p(j) => {}
                (q, j) => return Err(format!("parent of {} is {:?}, expected {:?}", self.label(i), q.map(|x| x.name()), j.map(|x| self.label(x)))),
            }
            let kids = p.children();
            if kids.len() != f.kids.len() || kids.iter().zip(&f.kids).any(|(k, j)| *k != self.p(*j)) {
                return Err(format!("children of {}: {:?}, expected {:?}", self.label(i), kids.iter().map(|k| k.to_string()).collect::<Vec<_>>(), f.kids.iter().map(|k| self.tree(*k).ser()).collect::<Vec<_>>()));
            }
            let attrs = p.attributes();
            if attrs.len() != f.attrs.len() || attrs.iter().zip(&f.attrs).any(|(k, j)| *k != self.p(*j)) {
                return Err(format!("attributes of {}: {:?}, expected {:?}", self.label(i), attrs.iter().map(|k| (k.name(), k.value())).collect::<Vec<_>>(), f.attrs.iter().map(|k| self.n[*k].name.clone()).collect::<Vec<_>>()));
            }
            for a in &f.attrs {
                if p.attribute_value(&self.n[*a].name) != Some(self.n[*a].value.clone()) { return Err(format!("attribute_value({:?}) of {} is {:?}", self.n[*a].name, self.label(i), p.attribute_value(&self.n[*a].name))); }
            }
            if p.root() != self.p(self.root_of(i)) { return Err(format!("root() of {} is wrong", self.label(i))); }
            cx.count("nodes compared");
        }
        Ok(())
    }
    /// A path expression from the root of the tree to the node.
    pub fn path(&self, i: usize) -> String {
        let mut s = String::new();
        let mut cur = i;
        while let Some(p) = self.n[cur].parent {
            if self.n[cur].kind == Kind::Attr {
                s = format!("/@*[{}]{}", self.n[p].attrs.iter().position(|x| *x == cur).unwrap() + 1, s);
            } else {
                s = format!("/node()[{}]{}", self.pos(p, cur).unwrap() + 1, s);
            }
            cur = p;
        }
        if s.is_empty() { "(/)".into() } else { s }
    }
}
