//! Checks on parsing, event stream, references, serialization (C01-C06, C10, C11).
use crate::model::*;
use crate::rng::Rng;
use crate::runner::{violation, Cx, Outcome, Violation};
use amxml::dom::{new_document, NodePtr};
use amxml::sax::{SaxDecoder, XmlToken};

pub fn parse(cx: &mut Cx, text: &str) -> Result<NodePtr, Violation> {
    cx.note(text);
    match new_document(text) {
        Ok(d) => Ok(d),
        Err(e) => violation(format!("well-formed document rejected: {}\n{}", e.to_string(), text)),
    }
}

fn cfg(r: &mut Rng, thorough: bool) -> DocCfg {
    let mut c = match r.below(4) { 0 => CFG_XPATH, _ => CFG_RICH };
    c.namespaces = r.chance(1, 3);
    c.lang = r.chance(1, 5);
    if r.chance(1, if thorough { 20 } else { 400 }) { c.max_nodes = 400; c.depth = 40; }
    c
}

/// Navigation accessors of the real tree agree with the snapshot through children()/attributes().
pub fn navigation(n: &NodePtr, parent: Option<&NodePtr>, top: &NodePtr) -> Result<(), String> {
    let kids = n.children();
    if n.parent().as_ref() != parent { return Err(format!("parent() of {:?} is wrong", n.name())); }
    if n.root() != *top { return Err(format!("root() of {:?} is wrong", n.name())); }
    for (i, k) in kids.iter().enumerate() {
        match n.nth_child(i) { Some(x) if x == *k => {}, _ => return Err(format!("nth_child({}) of {:?} differs from children()", i, n.name())) }
        navigation(k, Some(n), top)?;
    }
    if n.nth_child(kids.len()).is_some() || n.nth_child(usize::MAX).is_some() { return Err(format!("nth_child beyond the end of {:?} exists", n.name())); }
    if n.first_child() != kids.first().map(|k| k.rc_clone()) { return Err(format!("first_child() of {:?} is wrong", n.name())); }
    let attrs = n.attributes();
    for (i, a) in attrs.iter().enumerate() {
        if a.parent().as_ref() != Some(n) { return Err(format!("parent() of attribute {:?} is wrong", a.name())); }
        if a.root() != *top { return Err(format!("root() of attribute {:?} is wrong", a.name())); }
        if attrs[..i].iter().all(|b| b.name() != a.name()) && n.attribute_value(&a.name()) != Some(a.value()) {
            return Err(format!("attribute_value({:?}) differs from attributes()", a.name()));
        }
    }
    if n.attribute_value("no-such-attribute").is_some() { return Err("attribute_value of a missing attribute".into()); }
    Ok(())
}

// ---------------------------------------------------------------- C01
/// Every character of the basic plane as first and as later character of names.
fn name_chars(cx: &mut Cx, want_legal: bool) -> Outcome {
    let block = cx.case % 4096;
    for n in block * 16..block * 16 + 16 {
        let c = match char::from_u32(n as u32) { Some(c) if n > 0 && c != '\r' => c, _ => continue };
        for first in [true, false] {
            let name: String = if first { format!("{}z", c) } else { format!("a{}z", c) };
            let legal = if first { crate::names::is_first(c) } else { crate::names::is_name(c) };
            if legal != want_legal { continue; }
            if !legal {
                // in a tag such a character is not part of the name, so that the tag is malformed
                if c.is_ascii() { continue; }
                for t in [format!("<{}/>", name), format!("<{}></{}>", name, name), format!("<x {}=\"1\"/>", name)] {
                    cx.note(&t);
                    if let Ok(d) = new_document(&t) { return violation(format!("U+{:04X} is accepted in a name: {} as {}", n, t, d.to_string())); }
                    cx.count("character not for names");
                }
                continue;
            }
            let t = format!("<{0} {0}='1'><?{0} p?><x:{0}></x:{0}></{0}>", name);
            let mut want = M::new(Kind::Elem, &name, "");
            want.attrs.push((name.clone(), "1".into()));
            want.kids = vec![M::new(Kind::Pi, &name, "p"), M::new(Kind::Elem, &format!("x:{}", name), "")];
            let d = parse(cx, &t)?;
            cx.eval(Some(&t));
            cx.count("character for names");
            if let Some(df) = tree_diff(&want, &snapshot(&d.root_element()), "") { return violation(format!("U+{:04X} in names: {}\n{}", n, df, t)); }
        }
    }
    Ok(())
}

pub fn c01(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if cx.case < 4096 { name_chars(cx, true)?; }
    let c = cfg(r, cx.thorough);
    let d = gen_doc(r, &c);
    let rd = render(r, &d, true);
    let doc = parse(cx, &rd.text)?;
    let got = snapshot(&doc);
    cx.eval(if rd.tree.size() > 3 { Some(&rd.text) } else { None });
    for f in &rd.forms { cx.count(f); }
    cx.add("nodes_compared", rd.tree.size() as u64);
    cx.sample(rd.text.clone());
    if let Some(df) = tree_diff(&rd.tree, &got, "") {
        return violation(format!("parsed tree differs: {}\n{}", df, rd.text));
    }
    if let Err(e) = navigation(&doc, None, &doc) { return violation(format!("{}\n{}", e, rd.text)); }
    let want = doc.children().iter().find(|k| kind_of(k) == Kind::Elem).map(|k| k.rc_clone());
    for n in Doc::of(&doc).ptrs.iter().take(6) {
        if Some(n.root_element()) != want { return violation(format!("root_element() is wrong\n{}", rd.text)); }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
pub fn c02(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let c = cfg(r, cx.thorough);
    let d = gen_doc(r, &c);
    let rd = render(r, &d, true);
    let doc = parse(cx, &rd.text)?;
    // sometimes the tree is made by edits
    if r.chance(1, 2) {
        let all = Doc::of(&doc);
        let els = all.elems();
        for _ in 0..1 + r.below(4) {
            let i = *r.pick(&els);
            let mut e = all.ptrs[i].rc_clone();
            let j = r.below(all.ptrs.len());
            match r.below(5) {
                0 | 1 => {
                    let name = r.s(c.attr_names);
                    let v = text_value(r, true);
                    let v = if r.chance(1, 4) { format!("{}\r\n{}", v, r.s(&["", "\r", "]]>"])) } else { v };
                    e.set_attribute(&name, &v);
                    cx.count("attribute_set");
                    if e.attribute_value(&name) != Some(v.clone()) {
                        return violation(format!("attribute set to {:?} reads back as {:?}", v, e.attribute_value(&name)));
                    }
                }
                2 => { if all.nodes[j].kind != Kind::Attr && all.nodes[j].kind != Kind::Doc { e.append_child(&all.ptrs[j]); cx.count("append"); } }
                3 => { if all.nodes[j].kind != Kind::Attr && all.nodes[j].kind != Kind::Doc && i != j { e.insert_as_next_sibling(&all.ptrs[j]); cx.count("insert"); } }
                _ => { if let Some(k) = e.first_child() { e.delete_child(&k); cx.count("delete"); } }
            }
        }
    }
    // attributes or documents appended as children are a caller's misuse: not serializable
    fn plain(m: &M) -> bool {
        m.kids.iter().all(|k| k.kind != Kind::Attr && k.kind != Kind::Doc && k.kind != Kind::Other && plain(k)
            && (k.kind != Kind::Decl || m.kind == Kind::Doc))
    }
    let before = snapshot(&doc);
    let s1 = doc.to_string();
    cx.note(&s1);
    if !plain(&before) { cx.count("skipped_misuse"); return Ok(()); }
    cx.eval(if before.size() > 3 { Some(&s1) } else { None });
    cx.sample(s1.clone());
    if s1 != before.ser() { return violation(format!("serialization differs from the tree:\n got {}\nwant {}", s1, before.ser())); }
    let back = match new_document(&s1) { Ok(b) => b, Err(e) => return violation(format!("serialization does not parse: {}\n{}", e.to_string(), s1)) };
    let after = snapshot(&back);
    if let Some(df) = tree_diff(&before.merged(), &after.merged(), "") {
        return violation(format!("tree changed by serialize and parse: {}\n{}", df, s1));
    }
    let s2 = back.to_string();
    if s1 != s2 { return violation(format!("second serialization differs:\n{}\n{}", s1, s2)); }
    for n in Doc::of(&doc).ptrs.iter() {
        let inner: String = n.children().iter().map(|k| k.to_string()).collect();
        if n.inner_xml() != inner { return violation(format!("inner_xml differs from the children's strings: {:?} vs {:?}", n.inner_xml(), inner)); }
        let m = snapshot(n);
        if m.kind != Kind::Attr && n.to_string() != m.ser() { return violation(format!("to_string of a node: {:?}, expected {:?}", n.to_string(), m.ser())); }
        cx.count("node_serializations");
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
fn token(t: XmlToken) -> Ev {
    match t {
        XmlToken::EOF => Ev::Eof,
        XmlToken::StartElement { name, attr } => Ev::Start(name, attr.iter().map(|a| (a.name().to_string(), a.value().to_string())).collect()),
        XmlToken::EndElement { name } => Ev::End(name),
        XmlToken::CharData { chardata } => Ev::Chars(chardata),
        XmlToken::ProcInst { target, inst } => Ev::Pi(target, inst),
        XmlToken::Comment { comment } => Ev::Comment(comment),
        XmlToken::Directive { .. } => Ev::Directive,
    }
}

pub fn c03(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let c = cfg(r, cx.thorough);
    let d = gen_doc(r, &c);
    let rd = render(r, &d, true);
    cx.note(&rd.text);
    let mut dec = match SaxDecoder::new(&rd.text) { Ok(d) => d, Err(e) => return violation(format!("SaxDecoder::new: {}", e.to_string())) };
    let mut open: Vec<String> = vec![];
    let extra = 3;
    for (i, want) in rd.events.iter().chain(std::iter::repeat(&Ev::Eof).take(extra)).enumerate() {
        let raw = dec.raw_token();
        if let Ok(XmlToken::Directive { ref directive }) = raw {
            if !rd.text.contains(directive.as_str()) || !directive.starts_with("<!") || !directive.ends_with('>') {
                return violation(format!("event {}: directive {:?} is not in the document\n{}", i, directive, rd.text));
            }
        }
        let got = match raw { Ok(t) => token(t), Err(e) => return violation(format!("event {}: error {} instead of {:?}\n{}", i, e.to_string(), want, rd.text)) };
        if got != *want { return violation(format!("event {}: {:?}, expected {:?}\n{}", i, got, want, rd.text)); }
        match &got {
            Ev::Start(n, _) => { open.push(n.clone()); cx.count("start"); }
            Ev::End(n) => { if open.pop().as_ref() != Some(n) { return violation(format!("event {}: end of {:?} does not nest\n{}", i, n, rd.text)); } cx.count("end"); }
            Ev::Chars(_) => cx.count("chars"),
            Ev::Pi(..) => cx.count("pi"),
            Ev::Comment(_) => cx.count("comment"),
            Ev::Directive => cx.count("directive"),
            Ev::Eof => { if !open.is_empty() { return violation(format!("end of file with open elements\n{}", rd.text)); } cx.count("eof"); }
        }
    }
    cx.eval(if rd.events.len() > 3 { Some(&rd.text) } else { None });
    cx.sample(format!("{} events from {}", rd.events.len(), rd.text));
    Ok(())
}

// ---------------------------------------------------------------- C04
/// A piece of source text and what it denotes.
fn ref_piece(r: &mut Rng) -> (String, String, &'static str) {
    let sc = |r: &mut Rng| -> char {
        loop {
            let n = match r.below(8) {
                0 => r.range(0x20, 0x7e) as u32,
                1 => r.range(0xa0, 0x24f) as u32,
                2 => r.range(0x3040, 0x9fff) as u32,
                3 => r.range(0xe000, 0xfffd) as u32,
                4 => r.range(0x10000, 0x10ffff) as u32,
                5 => *r.pick(&[0x26, 0x3c, 0x3e, 0x22, 0x27, 0x3b, 0x23]),
                6 => *r.pick(&[9, 10, 13, 0xd7ff, 0xe000, 0xfffd, 0x10ffff, 0x10000, 0x7f, 0x80, 0xff, 0x100, 0x85, 0x2028]),
                _ => r.range(0x100, 0xd7ff) as u32,
            };
            if let Some(c) = char::from_u32(n) { return c; }
        }
    };
    match r.below(14) {
        12 | 13 => {
            // an ampersand that starts no reference; what follows it may not complete one
            let n = match r.below(4) {
                0 => r.s(&["nbsp", "copy", "AMP", "LT", "GT", "QUOT", "Amp", "Lt", "Gt", "apo", "am", "l", "g", "quo", "amps", "ltt", "eacute", "euro", "hellip", "mdash", "reg", "trade", "lt=", "gt.", "x26", "38", "ampamp", "ltlt"]),
                1 => (0..1 + r.below(5)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
                2 => r.s(&["", " ", "é", "日", " amp", "-", "=", "&", "&&", "'s", "a b"]),
                _ => crate::names::ncname(r),
            };
            if ["amp", "lt", "gt", "quot", "apos"].contains(&n.as_str()) || n.contains('\'') { return ("x".into(), "x".into(), "plain"); }
            let t = format!("&{}{}", n, r.s(&["; ", " ", ". ", "= "]));
            (t.clone(), t, "no reference")
        }
        0 => ("&amp;".into(), "&".into(), "amp"),
        1 => ("&lt;".into(), "<".into(), "lt"),
        2 => ("&gt;".into(), ">".into(), "gt"),
        3 => ("&quot;".into(), "\"".into(), "quot"),
        4 => ("&apos;".into(), "'".into(), "apos"),
        5 | 6 => { let c = sc(r); let z = "0".repeat(r.below(4)); (format!("&#{}{};", z, c as u32), c.to_string(), "decimal") }
        7 | 8 => {
            let c = sc(r);
            let z = "0".repeat(r.below(4));
            let h = if r.chance(1, 2) { format!("{:x}", c as u32) } else { format!("{:X}", c as u32) };
            (format!("&#x{}{};", z, h), c.to_string(), "hex")
        }
        9 => { let w = r.s(&["amp;", "lt;", "gt;", "quot;", "apos;", "#65;", "#x41;", "#38;#38;", "#38;amp;", "amp;amp;", "nbsp;"]); (format!("&amp;{}", w), format!("&{}", w.replace("&amp;", "&")), "escaped_ref") }
        10 => { let w = r.s(&["lt;", "amp;", "#60;"]); (format!("&#38;{}", w), format!("&{}", w), "numeric_amp") }
        _ => { let t = r.s(&["a", "amp;", "#65;", ";", "#x41;", " x ", "lt", "日本", "😀", "#", "x;y", "\n", " \n", "\t", "\n\n", "\u{a0}", "?", "-", ">"]); (t.clone(), t, "plain") }
    }
}

pub fn c04(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let mut src = String::new();
    let mut want = String::new();
    let n = 1 + r.below(7);
    for _ in 0..n {
        let (s, w, k) = ref_piece(r);
        src.push_str(&s);
        want.push_str(&w);
        cx.count(k);
    }
    // contexts: text, attribute (both quotes), text after other nodes
    if src.contains("?>") || src.contains("--") || src.contains("]]>") || src.ends_with('-') { return Ok(()); } // would end the raw contexts
    let raw = src.clone();
    let text = format!("<r a=\"{}\" b='{}'><e>{}</e><f><![CDATA[{}]]></f><!--{}--><?p {}?><g><![CDATA[{}]]>{}</g><g>{}<![CDATA[{}]]></g><g>{}<!--x-->{}<?p?>{}</g>{}</r>", src, src, src, raw, raw, raw, raw, src, src, raw, src, src, src, src);
    let doc = parse(cx, &text)?;
    cx.eval(Some(&src));
    cx.sample(format!("{:?} denotes {:?}", src, want));
    let root = doc.root_element();
    let mut seen: Vec<(&str, String, String)> = vec![
        ("attribute in double quotes", root.attribute_value("a").unwrap_or_default(), want.clone()),
        ("attribute in single quotes", root.attribute_value("b").unwrap_or_default(), want.clone()),
    ];
    let kids = root.children();
    if kids.len() != 8 { return violation(format!("expected 8 children, found {}\n{}", kids.len(), text)); }
    let tv = |n: &NodePtr| -> String { n.first_child().map(|k| k.value()).unwrap_or_default() };
    seen.push(("text", tv(&kids[0]), want.clone()));
    seen.push(("CDATA section", tv(&kids[1]), raw.clone()));
    seen.push(("comment", kids[2].value(), raw.clone()));
    seen.push(("processing instruction", kids[3].value(), raw.trim_start_matches(&[' ', '\t', '\n'][..]).to_string()));
    let part = |n: &NodePtr, i: usize| -> String { n.nth_child(i).map(|k| k.value()).unwrap_or_default() };
    seen.push(("CDATA section before text", part(&kids[4], 0), raw.clone()));
    seen.push(("text after a CDATA section", part(&kids[4], 1), want.clone()));
    seen.push(("text before a CDATA section", part(&kids[5], 0), want.clone()));
    seen.push(("CDATA section after text", part(&kids[5], 1), raw.clone()));
    for i in [0, 2, 4] { seen.push(("text between nodes", part(&kids[6], i), want.clone())); }
    seen.push(("text after a node", kids[7].value(), want.clone()));
    for (k, got, w) in seen {
        if got != w { return violation(format!("{}: source {:?} gives {:?}, expected {:?}", k, src, got, w)); }
    }
    // the event stream decodes alike
    let mut dec = SaxDecoder::new(&text).map_err(|e| Violation { what: e.to_string() })?;
    match dec.raw_token() {
        Ok(XmlToken::StartElement { attr, .. }) => for a in attr.iter() {
            if a.value() != want { return violation(format!("event stream attribute: source {:?} gives {:?}, expected {:?}", src, a.value(), want)); }
        },
        _ => return violation("first event is not the start of the root".into()),
    }
    dec.raw_token().ok();
    if let Ok(XmlToken::CharData { chardata }) = dec.raw_token() {
        if chardata != want { return violation(format!("event stream text: source {:?} gives {:?}, expected {:?}", src, chardata, want)); }
    } else { return violation("third event is not character data".into()); }
    Ok(())
}

// ---------------------------------------------------------------- C05
pub fn c05(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if cx.case < 4096 { name_chars(cx, false)?; }
    // a well-formed skeleton of markup pieces; damage one piece
    let mut c = CFG_XPATH;
    if r.chance(1, 2) { c = CFG_RICH; c.prolog = false; }
    let d = gen_doc(r, &c);
    let vary = r.chance(1, 2);
    let rd = render(r, &d, vary);
    let good = rd.text.clone();
    // positions of structural pieces, found by scanning the (known well-formed) text
    let pieces = scan(&good);
    let tags: Vec<&Piece> = pieces.iter().filter(|p| matches!(p.kind, 's' | 'e' | 'x')).collect();
    let (what, bad) = match r.below(16) {
        0 => { // truncate inside some piece
            let p = &pieces[r.below(pieces.len())];
            if p.kind == 't' { // cutting in text leaves an element open (text is always inside one here)
                ("cut in text", good[..p.start].to_string())
            } else {
                let cuts: Vec<usize> = (p.start + 1..p.end).filter(|i| good.is_char_boundary(*i)).collect();
                if cuts.is_empty() { return Ok(()); }
                ("cut inside markup", good[..*r.pick(&cuts)].to_string())
            }
        }
        1 => { // drop an end tag
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind == 'e').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            ("end tag dropped", format!("{}{}", &good[..p.start], &good[p.end..]))
        }
        2 => { // drop a start tag
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind == 's').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            ("start tag dropped", format!("{}{}", &good[..p.start], &good[p.end..]))
        }
        3 => { // rename an end tag
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind == 'e').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            let name = good[p.start + 2..p.end - 1].trim_end();
            let new = match r.below(8) { 0 => format!("{}x", name),
                4 => { let l = name.rsplit(':').next().unwrap(); if l == name { format!("{}:{}", r.s(&["n", "m", "x", "a", "xml", "ns"]), name) } else if r.chance(1, 3) { let t = format!("{}:{}", r.s(&["n0", "mm", "x", "a", "ns"]), l); if t == name { l.to_string() } else { t } } else { l.to_string() } }
                5 => { let mut v: Vec<char> = name.chars().collect(); v.pop(); v.into_iter().collect() }
                6 => { let mut v: Vec<char> = name.chars().collect(); let i = if r.chance(1, 3) { v.len() - 1 } else { r.below(v.len()) }; v[i] = if v[i] == 'e' { 'f' } else { 'e' }; v.into_iter().collect() }
                7 => { let v: Vec<char> = name.chars().rev().collect(); let t: String = v.into_iter().collect(); if t == name { format!("{}.", name) } else { t } } 1 => "zzz".to_string(), 2 => { let u = name.to_uppercase(); if u == name { format!("x{}", name) } else { u } }, _ => String::new() };
            ("end tag renamed", format!("{}</{}>{}", &good[..p.start], new, &good[p.end..]))
        }
        4 => { // extra end tag after the document element or inside
            let p = tags[r.below(tags.len())];
            ("stray end tag", format!("{}</{}>{}", &good[..p.end], r.s(&["a", "zz", ""]), &good[p.end..]))
        }
        5 => { // swap two adjacent end tags with different names
            let es: Vec<usize> = (0..pieces.len().saturating_sub(1)).filter(|i| pieces[*i].kind == 'e' && pieces[*i + 1].kind == 'e'
                && good[pieces[*i].start..pieces[*i].end].trim_end_matches('>').trim_end() != good[pieces[*i + 1].start..pieces[*i + 1].end].trim_end_matches('>').trim_end()).collect();
            if es.is_empty() { return Ok(()); }
            let i = *r.pick(&es);
            let (p, q) = (&pieces[i], &pieces[i + 1]);
            ("end tags swapped", format!("{}{}{}{}", &good[..p.start], &good[q.start..q.end], &good[p.start..p.end], &good[q.end..]))
        }
        6 | 7 => { // stray characters in a tag
            let p = tags[r.below(tags.len())];
            let inner_end = if p.kind == 'x' { p.end - 2 } else { p.end - 1 };
            let junk = r.s(&[" \"", " =", " 'x'", " <", " 1=\"2\"", " a", " a=", " a=b", " a=\"", " &", " *", " a b=\"1\"", " =\"1\"", " /x", " a=\"1\" !", " , b=\"2\"", " ;"]);
            let junk = if r.chance(1, 2) {
                // any one character, or two, where only white space, an attribute or the end may stand
                let pick = |r: &mut Rng| loop { let c = if r.chance(5, 6) { (0x21 + r.below(0x5e)) as u8 as char } else { wild_char(r) }; if !matches!(c, '>' | '"' | '\'' | ' ' | '\t' | '\n') { return c; } };
                let a = pick(r);
                if r.chance(1, 2) { format!(" {} ", a) } else { let b = pick(r); let sp = r.s(&["", " "]); if b == '=' && crate::names::is_first(a) { return Ok(()); } format!(" {}{}{} ", a, sp, b) }
            } else { junk };
            let junk = if p.kind == 'e' && r.chance(1, 2) { cx.count("junk at the end of an end tag"); junk.trim_matches(|c| c == ' ').to_string() } else { junk };
            // an unterminated quote must not find its partner later
            for q in ['"', '\''] {
                if junk.matches(q).count() % 2 == 1 && good[inner_end..].contains(q) { return Ok(()); }
            }
            ("stray characters in a tag", format!("{}{}{}", &good[..inner_end], junk, &good[inner_end..]))
        }
        8 => { // bad name
            let p = tags[r.below(tags.len())];
            let at = if p.kind == 'e' { p.start + 2 } else { p.start + 1 };
            let bad = r.s(&["1", "-", ".", " ", "*", "=", "'", "\"", "+", "(", "@", "~", "\t", "\u{d7}", "\u{2028}"]);
            // rename consistently would still be wrong: only this tag changes, and the name is illegal
            ("illegal name", format!("{}{}{}", &good[..at], bad, &good[at..]))
        }
        9 => { // unquoted or half-quoted attribute value
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind != 'e').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            let inner_end = if p.kind == 'x' { p.end - 2 } else { p.end - 1 };
            let q = r.s(&[" q=1", " q", " q=", " q = x", " q='1", " q=\"1", " q=`1`", " q:'1'", " q==\"1\"", " q=\"1' "]);
            // an unterminated quote must not find its partner later
            if (q.contains('\'') && good[inner_end..].contains('\'')) || (q.contains('"') && good[inner_end..].contains('"')) {
                if q.matches(|c| c == '\'' || c == '"').count() % 2 == 1 || q.contains("1' ") { return Ok(()); }
            }
            ("bad attribute", format!("{}{}{}", &good[..inner_end], q, &good[inner_end..]))
        }
        10 => { // lone '<' pieces in text position
            let p = tags[r.below(tags.len())];
            let junk = r.s(&["<", "<>", "< a>", "</>", "<1/>", "<!-", "<![CDATA", "<![cdata[x]]>", "<!--x", "<=", "<\"x\">", "< />", "<!- x -->"]);
            // what follows must not complete the junk into legal markup
            let rest = &good[p.end..];
            if !(rest.is_empty() || rest.starts_with('<')) { return Ok(()); }
            if junk.starts_with("<!") {
                let after: Vec<&Piece> = pieces.iter().filter(|x| x.start >= p.end).collect();
                if !after.iter().all(|x| matches!(x.kind, 's' | 'e' | 'x' | 't')) { return Ok(()); }
                if rest.matches('>').count() != after.iter().filter(|x| x.kind != 't').count() { return Ok(()); }
            }
            ("lone markup characters", format!("{}{}{}", &good[..p.end], junk, &good[p.end..]))
        }
        11 => { // unterminated comment / CDATA / PI / directive at the end, outside or inside
            let p = tags[r.below(tags.len())];
            let junk = r.s(&["<!-- x", "<!-- x --", "<!-- x ->", "<![CDATA[ x", "<![CDATA[ x ]]", "<?p x", "<?p x >", "<!DOCTYPE a", "<!DOCTYPE a [ <!ELEMENT b (c)> ]"]);
            if r.chance(2, 3) {
                // cut anywhere, in the document element, after it or before it
                let body: String = (0..r.many(6)).map(|_| r.s(&["a", " ", "x", "-", "?", "]", "\"", "'", "<b/>", "&amp;", "--", "??", "]]", "1", "=", "\n", "é", "->", "/"])).collect();
                let whole = match r.below(5) {
                    0 => format!("<!--{}-->", body.replace("-->", "").trim_end_matches('-')), 1 => format!("<![CDATA[{}]]>", body.replace(']', "")), 2 | 3 => format!("<?p {}?>", body.replace("?>", "").trim_end_matches('?')),
                    _ => format!("<!DOCTYPE a [ <!ENTITY b \"{}\"> <!-- {} --> ]>", body.replace('"', ""), body.replace('-', "")) };
                let cuts: Vec<usize> = (1..whole.len()).filter(|i| whole.is_char_boundary(*i)).collect();
                let n = if r.chance(1, 3) { cuts[cuts.len() - 1 - r.below(cuts.len().min(3))] } else { *r.pick(&cuts) };
                let front = match r.below(4) { 0 => "", 1 => &good[..p.end], _ => &good[..] };
                ("cut inside markup of any kind", format!("{}{}", front, &whole[..n]))
            } else {
            ("unterminated markup", format!("{}{}", &good[..p.end], junk))
            }
        }
        12 => { // duplicate a start tag
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind == 's').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            ("start tag duplicated", format!("{}{}{}", &good[..p.end], &good[p.start..p.end], &good[p.end..]))
        }
        13 => { // duplicate an end tag
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind == 'e').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            ("end tag duplicated", format!("{}{}{}", &good[..p.end], &good[p.start..p.end], &good[p.end..]))
        }
        14 => { // remove the closing '>' of a tag
            let p = tags[r.below(tags.len())];
            // what follows must not close it: only at the end of the document or before another tag
            if p.end != good.len() && !good[p.end..].starts_with('<') { return Ok(()); }
            ("'>' removed", format!("{}{}", &good[..p.end - 1], &good[p.end..]))
        }
        _ => { // a start tag turned into an end tag or the other way round
            let v: Vec<&&Piece> = tags.iter().filter(|p| p.kind != 'x').collect();
            if v.is_empty() { return Ok(()); }
            let p = v[r.below(v.len())];
            let name: String = good[p.start..p.end].trim_start_matches("</").trim_start_matches('<').chars().take_while(|c| !c.is_whitespace() && *c != '>').collect();
            let new = if p.kind == 's' { format!("</{}>", name) } else { format!("<{}>", name) };
            ("tag turned round", format!("{}{}{}", &good[..p.start], new, &good[p.end..]))
        }
    };
    cx.note(&bad);
    cx.eval(Some(&bad));
    cx.count(what);
    cx.sample(format!("{}: {}", what, bad));
    match new_document(&bad) {
        Err(_) => Ok(()),
        Ok(t) => violation(format!("accepted although {}:\n{}\nas {}", what, bad, t.to_string())),
    }
}

pub struct Piece { pub kind: char, pub start: usize, pub end: usize }

/// Splits a well-formed document into markup pieces:
/// s start tag, e end tag, x empty-element tag, c comment, d CDATA, p PI, D directive, t text.
pub fn scan(s: &str) -> Vec<Piece> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let find = |from: usize, pat: &str| -> usize { s[from..].find(pat).map(|p| from + p + pat.len()).unwrap_or(s.len()) };
    while i < b.len() {
        let st = i;
        let kind;
        if s[i..].starts_with("<!--") { i = find(i + 4, "-->"); kind = 'c'; }
        else if s[i..].starts_with("<![CDATA[") { i = find(i + 9, "]]>"); kind = 'd'; }
        else if s[i..].starts_with("<?") { i = find(i + 2, "?>"); kind = 'p'; }
        else if s[i..].starts_with("<!") {
            let mut depth = 0;
            while i < b.len() {
                if s[i..].starts_with("<!--") { i = find(i + 4, "-->"); continue; }
                if s[i..].starts_with("<?") { i = find(i + 2, "?>"); continue; }
                if b[i] == b'"' || b[i] == b'\'' { i = find(i + 1, &s[i..i + 1]); continue; }
                if b[i] == b'<' { depth += 1 }
                if b[i] == b'>' { depth -= 1; if depth == 0 { i += 1; break; } }
                i += 1;
                while i < b.len() && !s.is_char_boundary(i) { i += 1 }
            }
            kind = 'D';
        }
        else if s[i..].starts_with("</") { i = find(i, ">"); kind = 'e'; }
        else if b[i] == b'<' {
            let mut q = 0u8;
            while i < b.len() {
                if q != 0 { if b[i] == q { q = 0 } }
                else if b[i] == b'"' || b[i] == b'\'' { q = b[i] }
                else if b[i] == b'>' { i += 1; break; }
                i += 1;
            }
            kind = if b[i - 2] == b'/' { 'x' } else { 's' };
        }
        else { while i < b.len() && b[i] != b'<' { i += 1 } kind = 't'; }
        v.push(Piece { kind, start: st, end: i });
    }
    v
}

// ---------------------------------------------------------------- C06
fn soup(r: &mut Rng) -> String {
    let n = r.below(60);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(6) {
            0 => s.push_str(*r.pick(&["<", ">", "</", "/>", "<a", "<a>", "</a>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml ", "<!DOCTYPE", "<!", "[", "]", "=", "\"", "'"])),
            1 => s.push_str(*r.pick(&["&", ";", "&#", "&#x", "&amp;", "&#x110000;", "&#99999999999999999999;", "&#xD800;", "&#-1;", "&#;", "&#x;", "&&", "&#xFFFFFFFFFFFFFFFFF;", "&#4294967296;", "&#+65;", "&#x+41;"])),
            2 => s.push_str(*r.pick(&["<a b=\"", "<a b='", " c=\"1\"", "<n:a", "<a:b:c/>", "<:a/>", "<a xmlns:=\"\"/>", "xmlns=\"u\""])),
            3 => s.push(wild_char(r)),
            4 => s.push(char::from_u32(r.range(1, 0x2ff) as u32).unwrap_or('x')),
            _ => s.push((b'a' + r.below(4) as u8) as char),
        }
    }
    s
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(4) {
        if v.is_empty() { break; }
        let i = r.below(v.len());
        match r.below(6) {
            0 => { v.remove(i); }
            1 => { let c = wild_char(r); v.insert(i, c); }
            2 => { v[i] = wild_char(r); }
            3 => { v.truncate(i); }
            4 => { let j = i + r.below(v.len() - i) + 1; let part: Vec<char> = v[i..j.min(v.len())].to_vec(); v.splice(i..i, part); }
            _ => { let j = r.below(v.len()); v.swap(i, j); }
        }
    }
    v.into_iter().filter(|c| *c != '\0').collect()
}

/// A document of about a megabyte made of one thing, whole or cut off.
fn huge(r: &mut Rng) -> String {
    let n = 300_000 + r.below(900_000);
    let fill = |u: &str| u.repeat(n / u.len() + 1);
    let u = if r.chance(1, 6) { "&#".to_string() } else { r.s(&["x", " ", "é", "]", "-", "?", "&", "&#", "&#x", "&amp;", "&lt", "]]", "- ", ">", "\n", "\r\n", "😀", ";", "&;", "<!-- ", "'"]) };
    match r.below(11) {
        0 => format!("<a><!--{}--></a>", fill(&u).replace("-", " ")),
        1 => format!("<a><![CDATA[{}]]></a>", fill(&u)),
        2 => format!("<a><?p {}?></a>", fill(&u)),
        3 => format!("<a>{}</a>", fill(&u).replace('<', " ")),
        4 => format!("<a b=\"{}\"/>", fill(&u).replace('<', " ")),
        5 => format!("<!DOCTYPE a [{}]><a/>", fill(&r.s(&["<!ELEMENT b (c)>", "<!-- x -->", "<?p q?>", " ", "<!ENTITY e 'x'>", "<", "[", "x"]))),
        6 => format!("<a>{}</a>", fill(&r.s(&["<b/>", "<b></b>", "<b>x</b>", "x<b/>", "<!---->", "<?p?>", "<b c='d'/>", "<![CDATA[]]>", "</a><a>"]))),
        7 => format!("<{}/>", fill("a")),
        8 => format!("<a {}='1'/>", fill("b")),
        9 => { let k = if r.chance(2, 3) { 50_000 + r.below(40_000) } else { 300 + r.below(700) }; format!("<a {}/>", (0..k).map(|i| format!("b{}='{}' ", i, i)).collect::<String>()) }
        _ => { let open = r.s(&["<!--", "<a><![CDATA[", "<?p ", "<a b='", "<a b=\"", "<!DOCTYPE ", "<a>", "</a", "<a ", "<a><!-"]); format!("{}{}", open, fill(&u)) }
    }
}

/// Once in a while: a long input is dealt with in a time that does not grow out of proportion.
fn c06_huge(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let s = huge(r);
    cx.count("huge");
    cx.eval(Some(&format!("{} {}", s.len(), s.chars().take(12).collect::<String>())));
    let head: String = s.chars().take(60).collect();
    let tail: String = s.chars().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect();
    cx.note(&format!("{} bytes: {} .. {}", s.len(), head, tail));
    let t0 = std::time::Instant::now();
    let res = new_document(&s);
    if let Ok(d) = &res { cx.count("huge: accepted"); let t = d.to_string(); let _ = (d.to_pretty_string().len(), t.len()); }
    if let Ok(mut dec) = SaxDecoder::new(&s) {
        let limit = 2 * s.chars().count() + 4;
        let mut n = 0;
        loop { match dec.raw_token() { Ok(XmlToken::EOF) | Err(_) => break, Ok(_) => n += 1 } if n > limit { return violation(format!("more than {} events from {} bytes: {} .. {}", limit, s.len(), head, tail)); } }
    }
    let took = t0.elapsed().as_secs_f64();
    if took > 20.0 { return violation(format!("{:.0} s for {} bytes: {} .. {}", took, s.len(), head, tail)); }
    Ok(())
}

pub fn c06(cx: &mut Cx, r: &mut Rng) -> Outcome {
    if r.chance(1, if cx.thorough { 10_000 } else { 3_000 }) { return c06_huge(cx, r); }
    let (what, s) = match r.below(12) {
        0..=2 => ("soup", soup(r)),
        3..=7 => { let c = cfg(r, false); let d = gen_doc(r, &c); let t = render(r, &d, true).text; ("mutated", mutate(r, &t)) }
        8 => { let c = cfg(r, false); let d = gen_doc(r, &c); let t = render(r, &d, true).text; let v: Vec<char> = t.chars().collect(); let n = r.below(v.len() + 1); ("truncated", v[..n].iter().collect()) }
        9 => { let n = r.below(300); ("nested", format!("{}{}{}", "<a>".repeat(n), r.s(&["x", "", "<b/>", "&"]), "</a>".repeat(if r.chance(1, 2) { n } else { r.below(300) }))) }
        10 => { // adversarially long runs
            let n = 200 + r.below(if cx.thorough { 20000 } else { 2000 });
            let u = r.s(&["<", ">", "&", "&amp;", "&#", "]", "-", "\"", "'", "<!", "<!--", "<![CDATA[", "<?", "[", "]]>", "<a b=\"", " a=\"1\"", "=", "/", "<a/>", "é"]);
            let k = u.len().max(1);
            ("long run", format!("{}{}{}", r.s(&["", "<a>", "<a ", "<!DOCTYPE ", "<!--", "<a b='"]), u.repeat(n / k + 1), r.s(&["", "</a>", ">", "-->"])))
        }
        _ => { let n = r.below(40); ("random", (0..n).map(|_| char::from_u32(1 + (r.next() as u32) % if r.chance(1, 2) { 0x80 } else { 0x10ffff }).unwrap_or('\u{fffd}')).collect()) }
    };
    cx.note(&s);
    cx.eval(if s.len() > 2 { Some(&s) } else { None });
    cx.count(what);
    let len = s.len() as i64 + 64;
    let live0 = crate::alloc::live();
    crate::alloc::reset_peak();
    let res = new_document(&s);
    let used = crate::alloc::peak() - live0;
    if used > 4000 * len { return violation(format!("parsing {} bytes took {} bytes of memory: {:?}", s.len(), used, s.chars().take(300).collect::<String>())); }
    let ok = res.is_ok();
    if let Ok(d) = &res {
        cx.count("accepted");
        let snap = snapshot(d);
        let _ = d.to_string();
        let _ = d.to_pretty_string();
        let _ = d.inner_xml();
        let _ = d.root_element();
        if let Err(e) = navigation(d, None, d) { return violation(format!("{}\n{:?}", e, s)); }
        let all = Doc::of(d);
        for n in all.ptrs.iter().take(30) {
            let _ = (n.namespace_uri(), n.local_name(), n.space_name(), n.document_order());
        }
        let _ = snap.size();
    } else { cx.count("rejected"); }
    // the event stream ends within a bounded number of events
    let mut dec = match SaxDecoder::new(&s) { Ok(d) => d, Err(_) => return Ok(()) };
    let limit = 2 * s.chars().count() + 4;
    let mut n = 0;
    let mut sax_err = false;
    loop {
        match dec.raw_token() {
            Ok(XmlToken::EOF) => break,
            Ok(_) => { n += 1; cx.count("events"); }
            Err(_) => { sax_err = true; break; }
        }
        if n > limit { return violation(format!("more than {} events from {} characters: {:?}", limit, s.chars().count(), s.chars().take(300).collect::<String>())); }
    }
    if ok && sax_err { return violation(format!("tree built although the event stream fails: {:?}", s)); }
    Ok(())
}

// ---------------------------------------------------------------- C10
pub fn c10(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let mut c = CFG_RICH;
    c.wild_text = false;
    c.namespaces = true;
    c.scale = 12;
    c.names = &["a", "n:a", "m:b", "b", "q:z", "n:x-y", "要素", "m:属性", "a:b:c"];
    c.attr_names = &["id", "n:k", "m:k", "q:k", "n:id", "属性", "xml:lang"];
    c.prolog = r.chance(1, 2);
    let d = gen_doc(r, &c);
    let rd = render(r, &d, false);
    let doc = parse(cx, &rd.text)?;
    let all = Doc::of(&doc);
    let mut nontrivial = false;
    for i in 0..all.nodes.len() {
        let n = &all.nodes[i];
        let p = &all.ptrs[i];
        if n.kind != Kind::Elem && n.kind != Kind::Attr { continue; }
        if all.nodes.len() > 300 && !r.chance(200, all.nodes.len()) { continue; }
        let (pre, loc) = match n.name.find(':') { Some(k) => (&n.name[..k], &n.name[k + 1..]), None => ("", n.name.as_str()) };
        let uri = all.namespace_uri(i);
        if !uri.is_empty() { nontrivial = true; cx.count("bound"); } else { cx.count("unbound"); }
        if p.space_name() != pre { return violation(format!("prefix of {:?} is {:?}, expected {:?}\n{}", n.name, p.space_name(), pre, rd.text)); }
        if p.local_name() != loc { return violation(format!("local name of {:?} is {:?}, expected {:?}\n{}", n.name, p.local_name(), loc, rd.text)); }
        // the 'xml' prefix is predeclared and xmlns attributes are declarations: not claimed
        let skip_uri = pre == "xml" || pre == "xmlns" || n.name == "xmlns";
        if !skip_uri && p.namespace_uri() != uri { return violation(format!("namespace of node {} {:?} is {:?}, expected {:?}\n{}", i, n.name, p.namespace_uri(), uri, rd.text)); }
        for (f, want) in [("name()", n.name.clone()), ("local-name()", loc.to_string()), ("namespace-uri()", p.namespace_uri()),
                          ("name(.)", n.name.clone()), ("local-name(.)", loc.to_string()), ("namespace-uri(.)", uri.clone())] {
            if f == "namespace-uri(.)" && skip_uri { continue; }
            let key = format!("{}{}{}", rd.text, i, f);
            cx.eval(if nontrivial { Some(&key) } else { None });
            cx.note(&format!("{} on node {} of {}", f, i, rd.text));
            let got = match p.eval_xpath(f) { Ok(s) => s.to_string(), Err(e) => format!("error {}", e.to_string()) };
            if got != format!("\"{}\"", want) { return violation(format!("{} on node {} {:?}: {}, expected {:?}\n{}", f, i, n.name, got, want, rd.text)); }
        }
    }
    // name functions on other nodes and on the empty sequence
    for i in 0..all.nodes.len().min(40) {
        let n = &all.nodes[i];
        if matches!(n.kind, Kind::Doc | Kind::Text | Kind::Comment) {
            for f in ["name()", "local-name()", "namespace-uri()", "name(.)", "local-name(.)", "namespace-uri(.)", "name(())", "local-name(())", "namespace-uri(())"] {
                cx.note(&format!("{} on node {} of {}", f, i, rd.text));
                let got = match all.ptrs[i].eval_xpath(f) { Ok(s) => s.to_string(), Err(e) => format!("error {}", e.to_string()) };
                cx.eval(None);
                // an unnamed node has no namespace of its own
                if f.starts_with("namespace-uri") && f != "namespace-uri(())" { continue; }
                if got != "\"\"" { return violation(format!("{} on unnamed node {}: {}\n{}", f, i, got, rd.text)); }
            }
        }
    }
    cx.sample(rd.text.clone());
    Ok(())
}

// ---------------------------------------------------------------- C11
pub fn c11(cx: &mut Cx, r: &mut Rng) -> Outcome {
    let c = cfg(r, cx.thorough);
    let d = gen_doc(r, &c);
    let rd = render(r, &d, true);
    let doc = parse(cx, &rd.text)?;
    let all = Doc::of(&doc);
    for i in 0..all.nodes.len() {
        if all.nodes[i].kind == Kind::Attr { continue; }
        if i > 2 && all.nodes.len() > 60 && !r.chance(60, all.nodes.len()) { continue; }
        let p = &all.ptrs[i];
        let m = snapshot(p);
        let mut want = String::new();
        m.pretty(0, &mut want);
        let got = p.to_pretty_string();
        cx.eval(if m.kids.len() > 0 { Some(&want) } else { None });
        cx.count(match m.kind { Kind::Doc => "doc", Kind::Elem => "element", Kind::Text => "text", Kind::Comment => "comment", Kind::Pi => "pi", _ => "other" });
        if got != want { return violation(format!("pretty print of node {}:\n{:?}\nexpected\n{:?}", i, got, want)); }
        // removing what pretty printing adds gives the plain serialization
        let mut plain = String::new();
        strip(&m, 0, &got, &mut 0, &mut plain).map_err(|e| Violation { what: format!("{} in {:?}", e, got) })?;
        if plain != p.to_string() { return violation(format!("pretty print minus indentation is {:?}, plain is {:?}", plain, p.to_string())); }
    }
    cx.sample(doc.to_pretty_string());
    Ok(())
}

/// Walks the pretty form alongside the tree, removing indentation and line ends.
fn strip(m: &M, level: usize, s: &str, pos: &mut usize, out: &mut String) -> Result<(), String> {
    fn eat<'a>(s: &'a str, pos: &mut usize, lit: &str) -> Result<(), String> {
        if s[*pos..].starts_with(lit) { *pos += lit.len(); Ok(()) } else { Err(format!("expected {:?} at {}", lit, pos)) }
    }
    let ind = " ".repeat(4 * level);
    match m.kind {
        Kind::Doc => for k in &m.kids { strip(k, level, s, pos, out)?; },
        Kind::Elem if !m.kids.is_empty() => {
            let mut open = M { kids: vec![], ..m.clone() }.ser();
            open.truncate(open.len() - 2);
            open.push('>');
            eat(s, pos, &ind)?; eat(s, pos, &open)?; eat(s, pos, "\n")?;
            out.push_str(&open);
            for k in &m.kids { strip(k, level + 1, s, pos, out)?; }
            let close = format!("</{}>", m.name);
            eat(s, pos, &ind)?; eat(s, pos, &close)?; eat(s, pos, "\n")?;
            out.push_str(&close);
        }
        _ => { let t = m.ser(); eat(s, pos, &ind)?; eat(s, pos, &t)?; eat(s, pos, "\n")?; out.push_str(&t); }
    }
    Ok(())
}
