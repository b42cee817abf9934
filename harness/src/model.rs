//! Reference tree, document generator with lexical variation, reference
//! serializer, and snapshots of the real tree taken through its public accessors.
use crate::rng::Rng;
use amxml::dom::{NodePtr, NodeType};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Doc, Elem, Text, Comment, Decl, Pi, Attr, Other }

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub kind: Kind,
    pub name: String,
    pub value: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<M>,
}

impl M {
    pub fn new(kind: Kind, name: &str, value: &str) -> M {
        M { kind, name: name.to_string(), value: value.to_string(), attrs: vec![], kids: vec![] }
    }
    pub fn size(&self) -> usize {
        1 + self.attrs.len() + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    /// Reference serialization.
    pub fn ser(&self) -> String {
        let mut s = String::new();
        self.ser_to(&mut s);
        s
    }
    fn ser_to(&self, s: &mut String) {
        match self.kind {
            Kind::Doc => for k in &self.kids { k.ser_to(s) },
            Kind::Elem => {
                s.push('<');
                s.push_str(&self.name);
                for (n, v) in &self.attrs { s.push_str(&format!(" {}=\"{}\"", n, esc(v))); }
                if self.kids.is_empty() { s.push_str("/>"); } else {
                    s.push('>');
                    for k in &self.kids { k.ser_to(s); }
                    s.push_str(&format!("</{}>", self.name));
                }
            }
            Kind::Text => s.push_str(&esc(&self.value)),
            Kind::Comment => s.push_str(&format!("<!--{}-->", self.value)),
            Kind::Decl => s.push_str(&format!("<?xml {}?>", self.value)),
            Kind::Pi => s.push_str(&format!("<?{} {}?>", self.name, self.value)),
            _ => {}
        }
    }
    /// Reference pretty printing.
    pub fn pretty(&self, level: usize, s: &mut String) {
        let ind = " ".repeat(4 * level);
        match self.kind {
            Kind::Doc => for k in &self.kids { k.pretty(level, s) },
            Kind::Elem => {
                let mut tag = format!("<{}", self.name);
                for (n, v) in &self.attrs { tag.push_str(&format!(" {}=\"{}\"", n, esc(v))); }
                if self.kids.is_empty() { s.push_str(&format!("{}{}/>\n", ind, tag)); } else {
                    s.push_str(&format!("{}{}>\n", ind, tag));
                    for k in &self.kids { k.pretty(level + 1, s); }
                    s.push_str(&format!("{}</{}>\n", ind, self.name));
                }
            }
            Kind::Attr | Kind::Other => {}
            _ => s.push_str(&format!("{}{}\n", ind, self.ser())),
        }
    }
    /// Joins adjacent text nodes and drops empty ones (what a reparse can preserve).
    pub fn merged(&self) -> M {
        let mut m = M { kids: vec![], ..self.clone() };
        for k in &self.kids {
            let k = k.merged();
            if k.kind == Kind::Text {
                if k.value.is_empty() { continue; }
                if let Some(l) = m.kids.last_mut() {
                    if l.kind == Kind::Text { l.value.push_str(&k.value); continue; }
                }
            }
            m.kids.push(k);
        }
        m
    }
}

pub fn esc(v: &str) -> String {
    let mut s = String::new();
    for c in v.chars() {
        match c {
            '&' => s.push_str("&amp;"), '<' => s.push_str("&lt;"), '>' => s.push_str("&gt;"),
            '"' => s.push_str("&quot;"), '\'' => s.push_str("&apos;"), '\r' => s.push_str("&#xD;"),
            c => s.push(c),
        }
    }
    s
}

/// First difference between two trees, for messages.
pub fn tree_diff(exp: &M, act: &M, path: &str) -> Option<String> {
    if exp.kind != act.kind { return Some(format!("{}: expected {:?} node, found {:?}", path, exp.kind, act.kind)); }
    if exp.name != act.name { return Some(format!("{}: expected name {:?}, found {:?}", path, exp.name, act.name)); }
    if exp.value != act.value { return Some(format!("{}: expected value {:?}, found {:?}", path, exp.value, act.value)); }
    if exp.attrs != act.attrs { return Some(format!("{}: expected attributes {:?}, found {:?}", path, exp.attrs, act.attrs)); }
    for (i, (e, a)) in exp.kids.iter().zip(act.kids.iter()).enumerate() {
        if let Some(d) = tree_diff(e, a, &format!("{}/{}[{}]", path, e.name, i)) { return Some(d); }
    }
    if exp.kids.len() != act.kids.len() {
        return Some(format!("{}: expected {} children, found {}", path, exp.kids.len(), act.kids.len()));
    }
    None
}

pub fn kind_of(n: &NodePtr) -> Kind {
    match n.node_type() {
        NodeType::DocumentRoot => Kind::Doc,
        NodeType::Element => Kind::Elem,
        NodeType::Text => Kind::Text,
        NodeType::Comment => Kind::Comment,
        NodeType::XMLDecl => Kind::Decl,
        NodeType::Instruction => Kind::Pi,
        NodeType::Attribute => Kind::Attr,
        _ => Kind::Other,
    }
}

/// Snapshot of the real tree below a node.
pub fn snapshot(n: &NodePtr) -> M {
    let mut m = M::new(kind_of(n), &n.name(), &n.value());
    for a in n.attributes().iter() { m.attrs.push((a.name(), a.value())); }
    for c in n.children().iter() { m.kids.push(snapshot(c)); }
    m
}

// ---------------------------------------------------------------------
// arena view, in document order

#[derive(Clone)]
pub struct SNode {
    pub kind: Kind,
    pub name: String,
    pub value: String,
    pub parent: Option<usize>,
    pub attrs: Vec<usize>,
    pub kids: Vec<usize>,
    pub end: usize, // first index after the subtree
}

/// A tree as an arena whose index order is document order, with the real nodes.
pub struct Doc {
    pub nodes: Vec<SNode>,
    pub ptrs: Vec<NodePtr>,
}

impl Doc {
    pub fn of(root: &NodePtr) -> Doc {
        let mut d = Doc { nodes: vec![], ptrs: vec![] };
        d.walk(root, None);
        d
    }
    /// How far down the tree goes.
    pub fn depth(&self) -> usize {
        let mut at = vec![0; self.nodes.len()];
        for i in 0..self.nodes.len() { if let Some(p) = self.nodes[i].parent { at[i] = at[p] + 1; } }
        at.into_iter().max().unwrap_or(0)
    }
    fn walk(&mut self, n: &NodePtr, parent: Option<usize>) -> usize {
        let i = self.nodes.len();
        self.nodes.push(SNode { kind: kind_of(n), name: n.name(), value: n.value(), parent, attrs: vec![], kids: vec![], end: 0 });
        self.ptrs.push(n.rc_clone());
        for a in n.attributes().iter() {
            let j = self.nodes.len();
            self.nodes.push(SNode { kind: Kind::Attr, name: a.name(), value: a.value(), parent: Some(i), attrs: vec![], kids: vec![], end: j + 1 });
            self.ptrs.push(a.rc_clone());
            self.nodes[i].attrs.push(j);
        }
        for c in n.children().iter() {
            let j = self.walk(c, Some(i));
            self.nodes[i].kids.push(j);
        }
        let e = self.nodes.len();
        self.nodes[i].end = e;
        i
    }
    pub fn index_of(&self, p: &NodePtr) -> Option<usize> {
        self.ptrs.iter().position(|q| q == p)
    }
    pub fn elems(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].kind == Kind::Elem).collect()
    }
    pub fn string_value(&self, i: usize) -> String {
        match self.nodes[i].kind {
            Kind::Doc | Kind::Elem => {
                let mut s = String::new();
                for j in i..self.nodes[i].end { if self.nodes[j].kind == Kind::Text { s.push_str(&self.nodes[j].value); } }
                s
            }
            _ => self.nodes[i].value.clone(),
        }
    }
    pub fn attr(&self, i: usize, name: &str) -> Option<&str> {
        self.nodes[i].attrs.iter().find(|j| self.nodes[**j].name == name).map(|j| self.nodes[*j].value.as_str())
    }
    pub fn namespace_uri(&self, i: usize) -> String {
        let name = &self.nodes[i].name;
        let key = match name.find(':') {
            Some(p) => format!("xmlns:{}", &name[..p]),
            None => {
                if self.nodes[i].kind == Kind::Attr { return String::new(); }
                "xmlns".to_string()
            }
        };
        let mut cur = Some(i);
        while let Some(j) = cur {
            if let Some(v) = self.attr(j, &key) { return v.to_string(); }
            cur = self.nodes[j].parent;
        }
        String::new()
    }
    pub fn root_of(&self) -> usize { 0 }
}

// ---------------------------------------------------------------------
// generation

pub struct DocCfg {
    pub max_nodes: usize,
    pub depth: usize,
    pub names: &'static [&'static str],
    pub attr_names: &'static [&'static str],
    pub misc: bool,        // comments, PIs
    pub wild_text: bool,   // markup characters, non-ASCII
    pub prolog: bool,
    pub namespaces: bool,
    /// one in this many elements is very wide, one in this many documents very deep (0: none)
    pub scale: usize,
    pub lang: bool,
    pub texts: bool,
}

pub const PLAIN: &[&str] = &["a", "b", "c", "d"];
pub const RICH: &[&str] = &["a", "b", "c", "n:a", "m:b", "x-1", "a.b", "_u", "要素", "élan", "div", "to", "Long_Name9", "n:x-y", "ひらがな", "é"];
pub const ATTRS: &[&str] = &["id", "k", "x", "n:k"];
pub const ATTRS_RICH: &[&str] = &["id", "k", "x", "n:k", "属性", "x-y", "_a", "data.v", "m:z", "é1"];

pub const CFG_XPATH: DocCfg = DocCfg {
    max_nodes: 30, depth: 5, names: PLAIN, attr_names: &["id", "k", "x"], misc: true, wild_text: false,
    prolog: false, namespaces: false, lang: false, texts: true, scale: 150,
};
pub const CFG_RICH: DocCfg = DocCfg {
    max_nodes: 40, depth: 6, names: RICH, attr_names: ATTRS_RICH, misc: true, wild_text: true,
    prolog: true, namespaces: false, lang: false, texts: true, scale: 40,
};

pub fn wild_char(r: &mut Rng) -> char {
    match r.below(14) {
        0 => '&', 1 => '<', 2 => '>', 3 => '"', 4 => '\'', 5 => ']', 6 => ';', 7 => '#',
        8 => *r.pick(&['é', 'ß', 'İ', '日', '本', '語', '〓', 'ｶ', '\u{85}', '\u{2028}', '\u{a0}', '\u{3000}', '\u{fffd}', '\u{7f}']),
        9 => *r.pick(&['😀', '𝒳', '\u{10000}', '\u{10FFFD}', '\u{1F469}', '\u{20000}']),
        10 => *r.pick(&['-', '?', '!', '/', '=', '{', '}', '(', '%', '\\']),
        11 => *r.pick(&['\t', '\n', ' ', ' ']),
        _ => (b'a' + r.below(26) as u8) as char,
    }
}

pub fn word(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("{}", r.range(-3, 20)),
        1 => r.s(&["1", "2", "3", "10", "2.5", "007"]),
        2 => r.s(&["abc", "b", "B", "a b", "xyz", "zz"]),
        3 => r.s(&["日本", "é", "😀x"]),
        _ => { let n = r.below(4) + 1; (0..n).map(|_| (b'a' + r.below(5) as u8) as char).collect() }
    }
}

pub fn text_value(r: &mut Rng, wild: bool) -> String {
    if !wild {
        return match r.below(5) { 0 => " ".into(), 1 => "\n  ".into(), _ => word(r) };
    }
    let n = 1 + r.below(8);
    let mut s: String = (0..n).map(|_| wild_char(r)).collect();
    if r.chance(1, 8) { s.push_str(*r.pick(&["]]", "]]]", "]>", "--", "-->", "<![CDATA[", "]]>", "&amp;", "&lt;", "&#65;", "&#x41;", "<!--", "-->", "<a>", "&&amp;", "?>", "&unknown;"])); }
    if r.chance(1, 40) {
        // long runs, and a mark at the end
        let n = *r.pick(&[31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096]);
        let n = if r.chance(1, 250) { *r.pick(&[4097, 8191, 8192, 16384, 20000, 32768, 40000, 65535, 65536, 65537, 70000, 131072, 140000]) } else { n };
        let c = *r.pick(&['x', ' ', '\n', 'é', '日', '😀', '&', '<', '"', ']', '-']);
        s.extend(std::iter::repeat(c).take(n));
        s.push('.');
    }
    if r.chance(1, 20) { let w = *r.pick(&[" ", "\t", "\n", "\u{a0}", "\u{3000}"]); if r.chance(1, 2) { s = format!("{}{}", w, s); } else { s.push_str(w); } }
    s
}

/// A document (Doc node with prolog, one element, epilog).
pub fn gen_doc(r: &mut Rng, c: &DocCfg) -> M {
    let mut doc = M::new(Kind::Doc, "", "");
    if c.prolog {
        if r.chance(1, 2) {
            doc.kids.push(M::new(Kind::Decl, "xml", *r.pick(&["version=\"1.0\"", "version='1.0' encoding='UTF-8'", "version=\"1.1\" encoding=\"utf-8\" standalone=\"yes\" "])));
        }
        for _ in 0..r.below(3) { let m = gen_misc(r, c); push_text_safe(&mut doc, m); }
    }
    let mut budget = 2 + r.below(c.max_nodes);
    let mut e = gen_elem(r, c, c.depth, &mut budget);
    if c.scale > 0 && r.chance(1, c.scale) {
        let deep = if c.scale != 24 && r.chance(1, 4) { 60 + r.below(90) } else { 1 + r.below(40) };
        for _ in 0..deep {
            let mut up = gen_elem(r, c, 0, &mut 0);
            if r.chance(1, 4) { up.kids.push(M::new(Kind::Text, "", &word(r))); }
            up.kids.push(e);
            if r.chance(1, 4) { let s = gen_elem(r, c, 0, &mut 0); up.kids.push(s); }
            e = up;
        }
    }
    doc.kids.push(e);
    if c.prolog { for _ in 0..r.below(3) { let m = gen_misc(r, c); push_text_safe(&mut doc, m); } }
    doc
}

fn push_text_safe(p: &mut M, m: M) {
    if m.kind == Kind::Text {
        if let Some(l) = p.kids.last() { if l.kind == Kind::Text { return; } }
    }
    p.kids.push(m);
}

fn gen_misc(r: &mut Rng, c: &DocCfg) -> M {
    match r.below(3) {
        0 => M::new(Kind::Comment, "", &comment_value(r, c.wild_text)),
        1 => M::new(Kind::Pi, &pi_name(r, c), &pi_value(r, c.wild_text)),
        _ => M::new(Kind::Text, "", *r.pick(&[" ", "\n", "\n  "])),
    }
}

fn pi_name(r: &mut Rng, c: &DocCfg) -> String {
    if c.wild_text && r.chance(1, 3) { return crate::names::ncname(r); }
    if c.wild_text { r.s(&["p", "q", "pq", "xml-stylesheet", "php", "処理", "xm", "xmll", "p.q", "_p.1"]) } else { r.s(&["p", "q", "p", "q", "pq", "p-q", "qp", "p.q"]) }
}
fn pi_value(r: &mut Rng, wild: bool) -> String {
    if !wild { return r.s(&["", "1", "do it", "href=\"x\""]); }
    let s = text_value(r, true);
    let s = s.replace("?>", "? ");
    s.trim_start_matches(&[' ', '\t', '\n', '\r'][..]).to_string()
}
fn comment_value(r: &mut Rng, wild: bool) -> String {
    if !wild { return r.s(&["", " note ", "5", "a<b>&amp;"]); }
    let mut s = text_value(r, true).replace("\r", "");
    if r.chance(1, 6) { s = format!("-{}", s); }
    while s.contains("--") { s = s.replace("--", "-"); }
    while s.ends_with('-') { s.pop(); }
    s
}

pub fn gen_elem(r: &mut Rng, c: &DocCfg, depth: usize, budget: &mut usize) -> M {
    let any_name = |r: &mut Rng, names: &[&str]| -> String {
        if c.wild_text && r.chance(1, 6) {
            let n = if r.chance(1, 8) {
                // a long one, with a common beginning
                let k = 1 + r.below(40);
                format!("{}{}", "abcdefghij-klmnopqrst.uvwxyz_0123456789ABCDEF".chars().take(k).collect::<String>(), r.s(&["", "1", "2", "x", "-", "日"]))
            } else { crate::names::ncname(r) };
            if r.chance(1, 4) { format!("{}:{}", r.s(&["n", "m", "xm", "é"]), n) } else { n }
        } else { r.s(names) }
    };
    let mut m = M::new(Kind::Elem, &any_name(r, c.names), "");
    let na = match r.below(4) { 0 | 1 => 0, 2 => 1, _ => r.below(4) };
    let wide = c.scale > 0 && r.chance(1, c.scale);
    let very = wide && r.chance(1, 15);
    let na = if very { 60 + r.below(400) } else if wide { 4 + r.below(40) } else { na };
    for _ in 0..na {
        let n = if wide && !r.chance(1, 8) { format!("{}{}", r.s(&["a", "b", "x-", "n:k", "k."]), r.below(if very { 1000 } else { 100 })) } else { any_name(r, c.attr_names) };
        if m.attrs.iter().any(|(x, _)| *x == n) { continue; }
        let v = if c.wild_text { if r.chance(1, 5) { String::new() } else { text_value(r, true) } } else { word(r) };
        m.attrs.push((n, v));
    }
    if c.namespaces {
        for p in ["xmlns", "xmlns:n", "xmlns:m"] {
            if r.chance(1, 5) { let at = r.below(m.attrs.len() + 1); m.attrs.insert(at, (p.to_string(), r.s(&["http://one", "http://two", "urn:x", "http://例", "", "http://one/"]))); }
        }
    }
    if c.lang && r.chance(1, 3) {
        m.attrs.push(("xml:lang".into(), r.s(&["en", "en-US", "EN", "En-gb", "fr", "fr-CA", "eng", "ja", "e", "en-", "", "", "-", "x-en", "zh-Hant-TW", "ÉN"])));
    }
    if !c.wild_text && r.chance(1, 10) { let at = r.below(m.attrs.len() + 1); m.attrs.insert(at, ("xsi:nil".into(), r.s(&["true", "true", "false"]))); }
    if depth == 0 { return m; }
    let nk = match r.below(5) { 0 => 0, 1 => 1, _ => r.below(5) };
    let nk = if wide && r.chance(1, 2) { let most = if r.chance(1, 40) { 600 } else if r.chance(1, 4) { 100 } else { 15 }; let w = 5 + r.below(most); *budget += w; w } else { nk };
    for _ in 0..nk {
        if *budget == 0 { break; }
        *budget -= 1;
        let k = match r.below(10) {
            0..=5 => gen_elem(r, c, depth - 1, budget),
            6 | 7 if c.texts => M::new(Kind::Text, "", &text_value(r, c.wild_text)),
            8 if c.misc => M::new(Kind::Comment, "", &comment_value(r, c.wild_text)),
            9 if c.misc => M::new(Kind::Pi, &pi_name(r, c), &pi_value(r, c.wild_text)),
            _ => gen_elem(r, c, depth - 1, budget),
        };
        push_text_safe(&mut m, k);
    }
    m
}

/// One token event of the lexical rendering (for the event stream property).
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Start(String, Vec<(String, String)>),
    End(String),
    Chars(String),
    Pi(String, String),
    Comment(String),
    Directive,
    Eof,
}

pub struct Rendered {
    pub text: String,
    /// the tree that the text denotes (text nodes as split by CDATA sections)
    pub tree: M,
    pub events: Vec<Ev>,
    pub forms: Vec<&'static str>,
}

/// Writes a document with lexical variation.
pub fn render(r: &mut Rng, doc: &M, vary: bool) -> Rendered {
    let mut o = Rendered { text: String::new(), tree: M::new(Kind::Doc, "", ""), events: vec![], forms: vec![] };
    let mut kids = vec![];
    let mut first_elem_seen = false;
    for k in &doc.kids {
        if vary && k.kind == Kind::Elem && !first_elem_seen && r.chance(1, 4) {
            o.text.push_str(&doctype(r, &k.name));
            o.events.push(Ev::Directive);
            o.forms.push("directive");
        }
        if k.kind == Kind::Elem { first_elem_seen = true; }
        render_node(r, k, vary, &mut o, &mut kids, false);
    }
    o.events.push(Ev::Eof);
    // text nodes split by a dropped directive stay separate nodes
    o.tree.kids = kids;
    o
}

fn doctype(r: &mut Rng, name: &str) -> String {
    fn nested(r: &mut Rng, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..1 + r.below(3) {
            s.push_str(&r.s(&["x", " ", "(b|c)*", "\n", "[", "]", "#PCDATA", "%e;", "é", "!", "?", "-", "/", "=", "&amp;"]));
            if r.chance(1, 4) { s.push_str(&literal(r)); s.push(' '); }
            if d > 0 && r.chance(1, 2) { s.push_str(&format!("<{}{}>", r.s(&["x", "!x", "!ELEMENT ", "!ATTLIST a b CDATA "]), nested(r, d - 1))); }
        }
        s
    }
    /// A literal, in which angle brackets and the other quote are characters.
    fn literal(r: &mut Rng) -> String {
        let q = *r.pick(&['"', '\'']);
        let n = r.below(5);
        let v: String = (0..n).map(|_| r.s(&["a", ">", "<", "<b>", "]>", "]", "[", "\"", "'", "-->", "<!--", "?>", "<?p", "é", " ", "/", "&#60;"])).collect();
        format!("{}{}{}", q, v.replace(q, ""), q)
    }
    fn markup(r: &mut Rng) -> String {
        let bits = |r: &mut Rng, no: &str| { let n = r.below(5); let v: String = (0..n).map(|_| r.s(&["a", ">", "<", "<b>", "]>", "]", "it's", "\"", "'", "?", "!", "- ", "<!", "é", " ", "<?p", "<!-"])).collect(); v.replace(no, "") };
        match r.below(8) {
            0 => format!("<!-- {}{}-->", bits(r, "--"), r.s(&["", " ", "."])),
            1 => format!("<?p {} ?>", bits(r, "?>")),
            2 => format!("<!ENTITY {} {}>", r.s(&["e", "% p"]), literal(r)),
            3 => format!("<!ENTITY f {} {}>", r.s(&["SYSTEM", "PUBLIC 'x'"]), literal(r)),
            4 => format!("<!ATTLIST a {} CDATA {}>", r.s(&["k", "n:k"]), literal(r).replace('<', "")),
            5 => "<!ELEMENT a (#PCDATA|b)*>".into(),
            6 => format!("<!NOTATION n SYSTEM {}>", literal(r)),
            _ => r.s(&["\n", " ", "%p;"]),
        }
    }
    match r.below(11) {
        0 => format!("<!DOCTYPE {}>", name),
        1 => format!("<!DOCTYPE {} SYSTEM \"x.dtd\">", name),
        2 => format!("<!DOCTYPE {} [<!ELEMENT {} (b|c)*><!ATTLIST b k CDATA #IMPLIED>]>", name, name),
        3 => format!("<!DOCTYPE {} [<!ENTITY e 'x'><!-- note --><?p q?><!NOTATION n SYSTEM \"u\">\n]  >", name),
        4 | 5 => { let d = 1 + r.below(6); format!("<!DOCTYPE {} [{}]>", name, nested(r, d)) }
        6 => format!("<!DOCTYPE {} SYSTEM {}>", name, literal(r)),
        7 | 8 | 9 => {
            let n = r.below(5);
            let m: String = (0..n).map(|_| markup(r)).collect();
            let ext = if r.chance(1, 4) { format!(" SYSTEM {}", literal(r)) } else { String::new() };
            format!("<!DOCTYPE {}{} [{}]>", name, ext, m)
        }
        _ => format!("<!DOCTYPE {} PUBLIC '-//X//EN' 'x.dtd' [\n <!ELEMENT a ANY>\n]>", name),
    }
}

pub fn ref_char(r: &mut Rng, c: char) -> String {
    let n = c as u32;
    let named = match c { '&' => Some("&amp;"), '<' => Some("&lt;"), '>' => Some("&gt;"), '"' => Some("&quot;"), '\'' => Some("&apos;"), _ => None };
    if let Some(s) = named { if r.chance(2, 3) { return s.to_string(); } }
    match r.below(5) {
        0 => format!("&#{};", n),
        1 => format!("&#x{:x};", n),
        2 => format!("&#x{:X};", n),
        3 => format!("&#{:08};", n),
        _ => format!("&#x{:06X};", n),
    }
}

fn render_text(r: &mut Rng, v: &str, quote: Option<char>, vary: bool) -> String {
    let mut s = String::new();
    for c in v.chars() {
        let must = c == '&' || c == '<' || c == '\r' || Some(c) == quote
            || (quote.is_some() && (c == '\n' || c == '\t'))
            || (c == '>' && s.ends_with("]]"));
        if must || (vary && r.chance(1, 12)) { s.push_str(&ref_char(r, c)); }
        else {
            s.push(c);
        }
    }
    if quote.is_none() { eol(r, &s, vary) } else { s }
}

/// The line ends of a text written in any of the three ways.
fn eol(r: &mut Rng, v: &str, vary: bool) -> String {
    if !vary || !v.contains('\n') || r.chance(1, 4) { return v.to_string(); }
    let mut s = String::new();
    for c in v.chars() {
        if c != '\n' { s.push(c); continue; }
        // a line feed after a carriage return would belong to it
        match r.below(3) { 0 => s.push_str("\r\n"), 1 => s.push('\r'), _ => if s.ends_with('\r') { s.push_str("\r\n") } else { s.push('\n') } }
    }
    s
}

fn ws(r: &mut Rng, vary: bool, min: usize) -> String {
    if !vary { return " ".repeat(min); }
    let n = if r.chance(3, 4) { min } else { min + r.below(3) };
    (0..n).map(|_| *r.pick(&[' ', ' ', '\n', '\t', '\r'])).collect()
}

fn render_node(r: &mut Rng, m: &M, vary: bool, o: &mut Rendered, out: &mut Vec<M>, in_elem: bool) {
    match m.kind {
        Kind::Elem => {
            let mut e = M::new(Kind::Elem, &m.name, "");
            e.attrs = m.attrs.clone();
            o.text.push('<');
            o.text.push_str(&m.name);
            for (n, v) in &m.attrs {
                let w = ws(r, vary, 1);
                o.text.push_str(&w);
                o.text.push_str(n);
                if vary && r.chance(1, 8) { o.text.push_str(&ws(r, true, 1)); o.forms.push("space-around-eq"); }
                o.text.push('=');
                if vary && r.chance(1, 8) { o.text.push_str(&ws(r, true, 1)); }
                let q = if vary && r.chance(1, 2) { '\'' } else { '"' };
                o.forms.push(if q == '"' { "dquote" } else { "squote" });
                o.text.push(q);
                let t = render_text(r, v, Some(q), vary);
                o.text.push_str(&t);
                o.text.push(q);
            }
            if vary && r.chance(1, 6) { o.text.push_str(&ws(r, true, 1)); o.forms.push("space-in-tag"); }
            o.events.push(Ev::Start(m.name.clone(), m.attrs.clone()));
            if m.kids.is_empty() && (!vary || r.chance(2, 3)) {
                o.text.push_str("/>");
                o.forms.push("empty-tag");
            } else {
                o.text.push('>');
                let mut kids = vec![];
                for k in &m.kids { render_node(r, k, vary, o, &mut kids, true); }
                o.text.push_str(&format!("</{}{}>", m.name, if vary && r.chance(1, 8) { " " } else { "" }));
                e.kids = kids;
            }
            o.events.push(Ev::End(m.name.clone()));
            out.push(e);
        }
        Kind::Text => {
            if m.value.is_empty() { return; }
            // split into runs of character data and CDATA sections
            // (two runs of character data are never adjacent)
            let chars: Vec<char> = m.value.chars().collect();
            let mut parts: Vec<(String, bool)> = vec![];
            let mut i = 0;
            while i < chars.len() {
                let n = if vary && in_elem && r.chance(1, 3) { 1 + r.below(chars.len() - i) } else { chars.len() - i };
                let part: String = chars[i..i + n].iter().collect();
                i += n;
                let ok = in_elem && !part.contains("]]>") && !part.contains('\r');
                let prev_chars = parts.last().map(|p| !p.1).unwrap_or(false);
                if ok && vary && r.chance(1, if prev_chars { 2 } else { 4 }) {
                    parts.push((part, true));
                } else if prev_chars {
                    parts.last_mut().unwrap().0.push_str(&part);
                } else {
                    parts.push((part, false));
                }
            }
            if in_elem && vary && r.chance(1, 12) {
                let at = r.below(parts.len() + 1);
                // an empty section may split character data in two
                if at < parts.len() && !parts[at].1 && parts[at].0.chars().count() > 1 && r.chance(1, 2) {
                    let v: Vec<char> = parts[at].0.chars().collect();
                    let k = 1 + r.below(v.len() - 1);
                    let (a, b): (String, String) = (v[..k].iter().collect(), v[k..].iter().collect());
                    parts.splice(at..at + 1, [(a, false), (String::new(), true), (b, false)]);
                } else { parts.insert(at, (String::new(), true)); }
            }
            for (part, cdata) in parts {
                if cdata {
                    o.text.push_str(&format!("<![CDATA[{}]]>", eol(r, &part, vary)));
                    o.forms.push("cdata");
                } else {
                    let t = render_text(r, &part, None, vary);
                    o.text.push_str(&t);
                    o.forms.push("chardata");
                }
                o.events.push(Ev::Chars(part.clone()));
                // an empty section has no characters, so it makes no text node
                if !part.is_empty() { out.push(M::new(Kind::Text, "", &part)); }
            }
        }
        Kind::Comment => {
            let v = eol(r, &m.value, vary);
            o.text.push_str(&format!("<!--{}-->", v));
            o.events.push(Ev::Comment(m.value.clone()));
            o.forms.push("comment");
            out.push(m.clone());
        }
        Kind::Pi => {
            if m.value.is_empty() && r.chance(1, 2) { o.text.push_str(&format!("<?{}?>", m.name)); }
            else { let w = ws(r, vary, 1); let v = eol(r, &m.value, vary); o.text.push_str(&format!("<?{}{}{}?>", m.name, w, v)); }
            o.events.push(Ev::Pi(m.name.clone(), m.value.clone()));
            o.forms.push("pi");
            out.push(m.clone());
        }
        Kind::Decl => {
            o.text.push_str(&format!("<?xml {}?>", m.value));
            o.events.push(Ev::Pi("xml".into(), m.value.clone()));
            o.forms.push("decl");
            out.push(m.clone());
        }
        _ => {}
    }
}
