//! XPath syntax trees and their rendering as text in several equivalent forms.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Or, And,
    Eq, Ne, Lt, Le, Gt, Ge,           // value comparisons
    GEq, GNe, GLt, GLe, GGt, GGe,     // general comparisons
    Is, Before, After,
    Concat, To, Add, Sub, Mul, Div, Idiv, Mod,
    Union, Intersect, Except,
    Bang, Slash, DSlash,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Axis { Child, Descendant, DescendantOrSelf, SelfA, Parent, Ancestor, AncestorOrSelf, Following, Preceding, FollowingSibling, PrecedingSibling, Attribute }

pub const AXES: [Axis; 12] = [Axis::Child, Axis::Descendant, Axis::DescendantOrSelf, Axis::SelfA, Axis::Parent, Axis::Ancestor, Axis::AncestorOrSelf, Axis::Following, Axis::Preceding, Axis::FollowingSibling, Axis::PrecedingSibling, Axis::Attribute];

impl Axis {
    pub fn name(self) -> &'static str {
        match self {
            Axis::Child => "child", Axis::Descendant => "descendant", Axis::DescendantOrSelf => "descendant-or-self",
            Axis::SelfA => "self", Axis::Parent => "parent", Axis::Ancestor => "ancestor", Axis::AncestorOrSelf => "ancestor-or-self",
            Axis::Following => "following", Axis::Preceding => "preceding", Axis::FollowingSibling => "following-sibling",
            Axis::PrecedingSibling => "preceding-sibling", Axis::Attribute => "attribute",
        }
    }
    pub fn reverse(self) -> bool {
        matches!(self, Axis::Parent | Axis::Ancestor | Axis::AncestorOrSelf | Axis::Preceding | Axis::PrecedingSibling)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Test {
    Name(String), Star, PrefixStar(String), StarLocal(String),
    Node, Text, Comment, Pi(Option<String>), Element(Option<String>), Attribute(Option<String>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Item { Any, Integer, Decimal, Double, Numeric, Str, Boolean, AnyAtomic, Node, Element(Option<String>), Attribute(Option<String>), Text, Comment, Pi(Option<String>), MapAny, ArrayAny, FunAny, MapOf(Box<Item>, Box<Ty>), ArrayOf(Box<Ty>), FunOf(Vec<Ty>, Box<Ty>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Occ { One, Opt, Star, Plus }

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { EmptySeq, Of(Item, Occ) }

/// Target of a cast.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Atom { Integer, Decimal, Double, Str, Boolean }

#[derive(Clone, PartialEq, Debug)]
pub enum Key { Name(String), Int(i64), Star, Expr(Box<E>) }

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Int(i64), Dec(String), Dbl(String), Str(String),
    Var(String), Empty, Seq(Vec<E>), Ctx, Root, DotDot,
    For(Vec<(String, E)>, Box<E>),
    Let(Vec<(String, E)>, Box<E>),
    Quant(bool, Vec<(String, E)>, Box<E>), // true: every
    If(Box<E>, Box<E>, Box<E>),
    Bin(Op, Box<E>, Box<E>),
    Inst(Box<E>, Ty),
    Castable(Box<E>, Atom, bool),
    Cast(Box<E>, Atom, bool),
    Arrow(Box<E>, Box<Callee>, Vec<Option<E>>),
    Neg(Box<E>), Plus(Box<E>),
    Step(Axis, Test, Vec<E>),
    Filter(Box<E>, Box<E>),
    Dyn(Box<E>, Vec<Option<E>>),
    Lookup(Box<E>, Key),
    ULookup(Key),
    Call(String, Vec<Option<E>>),
    FRef(String, usize),
    Inline(Vec<(String, Option<Ty>)>, Option<Ty>, Box<E>),
    Map(Vec<(E, E)>), ArrS(Vec<E>), ArrC(Option<Box<E>>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Callee { Name(String), Var(String), Expr(E) }

pub fn b(op: Op, l: E, r: E) -> E { E::Bin(op, Box::new(l), Box::new(r)) }
pub fn call(n: &str, a: Vec<E>) -> E { E::Call(n.to_string(), a.into_iter().map(Some).collect()) }
pub fn s(v: &str) -> E { E::Str(v.to_string()) }
pub fn var(v: &str) -> E { E::Var(v.to_string()) }
pub fn step(a: Axis, t: Test) -> E { E::Step(a, t, vec![]) }
pub fn name(n: &str) -> Test { Test::Name(n.to_string()) }
pub fn filter(e: E, p: E) -> E { E::Filter(Box::new(e), Box::new(p)) }
/// An expression denoting the given integer.
pub fn int(n: i64) -> E {
    if n >= 0 { E::Int(n) }
    else if n == i64::MIN { b(Op::Sub, E::Neg(Box::new(E::Int(i64::MAX))), E::Int(1)) }
    else { E::Neg(Box::new(E::Int(-n))) }
}

// ---------------------------------------------------------------------
// rendering

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TK { Word, Num, Str, Punct, Op, TypeEnd, OccInd }

#[derive(Clone, Debug)]
pub struct Tok { pub t: String, pub k: TK }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Paren { Min, Full, Random }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Space { Single, Tight, Wild }

pub struct Style { pub paren: Paren, pub space: Space, pub abbrev: bool, pub any_quote: bool }

pub const CANON: Style = Style { paren: Paren::Min, space: Space::Single, abbrev: true, any_quote: false };

fn level(e: &E) -> u8 {
    match e {
        E::For(..) | E::Let(..) | E::Quant(..) | E::If(..) => 1,
        E::Bin(op, _, _) => oplevel(*op),
        E::Inst(..) => 11, E::Castable(..) => 13, E::Cast(..) => 14, E::Arrow(..) => 15,
        E::Neg(_) | E::Plus(_) => 16,
        E::Root => 18,
        E::Step(..) | E::Filter(..) | E::Dyn(..) | E::Lookup(..) | E::DotDot => 19,
        _ => 20,
    }
}
pub fn oplevel(op: Op) -> u8 {
    match op {
        Op::Or => 2, Op::And => 3,
        Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::GEq | Op::GNe | Op::GLt | Op::GLe | Op::GGt | Op::GGe | Op::Is | Op::Before | Op::After => 4,
        Op::Concat => 5, Op::To => 6, Op::Add | Op::Sub => 7, Op::Mul | Op::Div | Op::Idiv | Op::Mod => 8,
        Op::Union => 9, Op::Intersect | Op::Except => 10, Op::Bang => 17, Op::Slash | Op::DSlash => 18,
    }
}
pub fn optext(op: Op) -> &'static str {
    match op {
        Op::Or => "or", Op::And => "and", Op::Eq => "eq", Op::Ne => "ne", Op::Lt => "lt", Op::Le => "le", Op::Gt => "gt", Op::Ge => "ge",
        Op::GEq => "=", Op::GNe => "!=", Op::GLt => "<", Op::GLe => "<=", Op::GGt => ">", Op::GGe => ">=",
        Op::Is => "is", Op::Before => "<<", Op::After => ">>", Op::Concat => "||", Op::To => "to",
        Op::Add => "+", Op::Sub => "-", Op::Mul => "*", Op::Div => "div", Op::Idiv => "idiv", Op::Mod => "mod",
        Op::Union => "|", Op::Intersect => "intersect", Op::Except => "except", Op::Bang => "!", Op::Slash => "/", Op::DSlash => "//",
    }
}

pub fn atom_name(a: Atom) -> &'static str {
    match a { Atom::Integer => "xs:integer", Atom::Decimal => "xs:decimal", Atom::Double => "xs:double", Atom::Str => "xs:string", Atom::Boolean => "xs:boolean" }
}

pub struct R<'a> { pub rng: &'a mut Rng, pub st: Style, pub out: Vec<Tok> }

impl<'a> R<'a> {
    fn p(&mut self, t: &str) { self.out.push(Tok { t: t.to_string(), k: TK::Punct }); }
    fn w(&mut self, t: &str) { self.out.push(Tok { t: t.to_string(), k: TK::Word }); }
    fn op(&mut self, t: &str) { self.out.push(Tok { t: t.to_string(), k: TK::Op }); }

    /// `e` where an expression of at least level `min` is required.
    pub fn e(&mut self, e: &E, min: u8) {
        let lv = level(e);
        let atomic = matches!(e, E::Int(_) | E::Dec(_) | E::Dbl(_) | E::Str(_) | E::Var(_) | E::Empty | E::Seq(_) | E::Ctx);
        let need = lv < min;
        let extra = !need && !atomic && match self.st.paren {
            Paren::Min => false,
            // a step on the right of '/' may be parenthesized too
            Paren::Full => true,
            Paren::Random => self.rng.chance(1, 3),
        };
        if need || extra { self.p("("); self.bare(e); self.p(")"); } else { self.bare(e); }
    }
    /// A base for predicates, argument lists and lookups.
    fn base(&mut self, e: &E) {
        let ok = level(e) == 20 || matches!(e, E::Filter(..) | E::Dyn(..) | E::Lookup(..));
        // `name (..)` and `$f (..)` differ; a lone Seq renders its own parentheses
        if ok { self.e(e, 19); } else { self.p("("); self.bare(e); self.p(")"); }
    }
    fn top(&mut self, e: &E) {
        // Expr position: a comma list needs no parentheses of its own
        if let E::Seq(v) = e {
            if v.len() > 1 && self.st.paren == Paren::Min {
                for (i, x) in v.iter().enumerate() { if i > 0 { self.p(","); } self.e(x, 1); }
                return;
            }
        }
        self.e(e, 1);
    }
    fn args(&mut self, a: &[Option<E>]) {
        self.p("(");
        for (i, x) in a.iter().enumerate() {
            if i > 0 { self.p(","); }
            match x { Some(x) => self.e(x, 1), None => self.p("?") }
        }
        self.p(")");
    }
    fn item(&mut self, it: &Item) {
        let (nm, arg): (&str, Option<Option<&str>>) = match it {
            Item::Any => ("item", Some(None)), Item::Integer => ("xs:integer", None), Item::Decimal => ("xs:decimal", None),
            Item::Double => ("xs:double", None), Item::Numeric => ("xs:numeric", None), Item::Str => ("xs:string", None),
            Item::Boolean => ("xs:boolean", None), Item::AnyAtomic => ("xs:anyAtomicType", None),
            Item::Node => ("node", Some(None)), Item::Element(n) => ("element", Some(n.as_ref().map(|s| s.as_str()))),
            Item::Attribute(n) => ("attribute", Some(n.as_ref().map(|s| s.as_str()))), Item::Text => ("text", Some(None)),
            Item::Comment => ("comment", Some(None)), Item::Pi(n) => ("processing-instruction", Some(n.as_ref().map(|s| s.as_str()))),
            Item::MapAny => ("map", Some(Some("*"))), Item::ArrayAny => ("array", Some(Some("*"))), Item::FunAny => ("function", Some(Some("*"))),
            Item::MapOf(k, v) => { self.w("map"); self.p("("); self.item(k); self.p(","); self.ty(v); self.p(")"); return; }
            Item::ArrayOf(v) => { self.w("array"); self.p("("); self.ty(v); self.p(")"); return; }
            Item::FunOf(a, r) => {
                self.w("function"); self.p("(");
                for (i, x) in a.iter().enumerate() { if i > 0 { self.p(","); } self.ty(x); }
                self.p(")"); self.w("as"); self.ty(r);
                return;
            }
        };
        self.w(nm);
        if let Some(a) = arg { self.p("("); if let Some(x) = a { self.kind_arg(x); } self.p(")"); }
    }
    /// "name" or "name,type" or "name,type?" of a kind test.
    fn kind_arg(&mut self, x: &str) {
        match x.find(',') {
            Some(i) => {
                let (n, t) = (&x[..i], &x[i + 1..]);
                if n == "*" { self.p(n); } else { self.w(n); }
                self.p(",");
                self.w(t.trim_end_matches('?'));
                if t.ends_with('?') { self.p("?"); }
            }
            None => self.w(x),
        }
    }
    fn ty(&mut self, t: &Ty) {
        match t {
            Ty::EmptySeq => { self.w("empty-sequence"); self.p("("); self.p(")"); }
            Ty::Of(it, occ) => {
                self.item(it);
                match occ { Occ::One => {} Occ::Opt => self.out.push(Tok { t: "?".into(), k: TK::OccInd }), Occ::Star => self.out.push(Tok { t: "*".into(), k: TK::OccInd }), Occ::Plus => self.out.push(Tok { t: "+".into(), k: TK::OccInd }) }
            }
        }
        let l = self.out.last_mut().unwrap();
        if l.k != TK::OccInd { l.k = TK::TypeEnd; }
    }
    fn strlit(&mut self, v: &str) {
        let q = if self.st.any_quote { *self.rng.pick(&['"', '\'']) } else if v.contains('"') && !v.contains('\'') { '\'' } else { '"' };
        let t = v.replace(q, &format!("{}{}", q, q));
        self.out.push(Tok { t: format!("{}{}{}", q, t, q), k: TK::Str });
    }
    fn key(&mut self, k: &Key) {
        match k {
            Key::Name(n) => self.w(n),
            Key::Int(i) => self.out.push(Tok { t: i.to_string(), k: TK::Num }),
            Key::Star => self.p("*"),
            Key::Expr(e) => { self.p("("); self.top(e); self.p(")"); }
        }
    }
    fn binds(&mut self, bs: &[(String, E)], sep: &str) {
        for (i, (n, e)) in bs.iter().enumerate() {
            if i > 0 { self.p(","); }
            self.w(&format!("${}", n));
            if sep == "in" { self.w("in") } else { self.p(":=") }
            self.e(e, 1);
        }
    }
    fn test(&mut self, t: &Test) {
        let kind = |r: &mut Self, n: &str, a: Option<&str>| { r.w(n); r.p("("); if let Some(x) = a { r.kind_arg(x); } r.p(")"); };
        match t {
            Test::Name(n) => self.w(n),
            Test::Star => self.w("*"),
            Test::PrefixStar(p) => self.w(&format!("{}:*", p)),
            Test::StarLocal(l) => self.w(&format!("*:{}", l)),
            Test::Node => kind(self, "node", None),
            Test::Text => kind(self, "text", None),
            Test::Comment => kind(self, "comment", None),
            Test::Pi(n) => {
                self.w("processing-instruction"); self.p("(");
                if let Some(n) = n { self.w(n); }
                self.p(")");
            }
            Test::Element(n) => kind(self, "element", n.as_ref().map(|s| s.as_str())),
            Test::Attribute(n) => kind(self, "attribute", n.as_ref().map(|s| s.as_str())),
        }
    }

    fn bare(&mut self, e: &E) {
        match e {
            E::Int(i) => self.out.push(Tok { t: i.to_string(), k: TK::Num }),
            E::Dec(t) | E::Dbl(t) => self.out.push(Tok { t: t.clone(), k: TK::Num }),
            E::Str(v) => self.strlit(v),
            E::Var(n) => self.w(&format!("${}", n)),
            E::Empty => { self.p("("); self.p(")"); }
            E::Seq(v) => {
                self.p("(");
                for (i, x) in v.iter().enumerate() { if i > 0 { self.p(","); } self.e(x, 1); }
                self.p(")");
            }
            E::Ctx => self.p("."),
            E::Root => { self.p("("); self.p("/"); self.p(")"); }
            E::DotDot => self.p(".."),
            E::For(bs, r) => { self.w("for"); self.binds(bs, "in"); self.w("return"); self.e(r, 1); }
            E::Let(bs, r) => { self.w("let"); self.binds(bs, ":="); self.w("return"); self.e(r, 1); }
            E::Quant(every, bs, c) => { self.w(if *every { "every" } else { "some" }); self.binds(bs, "in"); self.w("satisfies"); self.e(c, 1); }
            E::If(c, t, f) => {
                self.w("if"); self.p("("); self.top(c); self.p(")");
                self.w("then"); self.e(t, 1); self.w("else"); self.e(f, 1);
            }
            E::Bin(op, l, r) => {
                let lv = oplevel(*op);
                match op {
                    Op::Slash | Op::DSlash => {
                        if **l != E::Root {
                            if let E::Bin(o2, _, _) = &**l {
                                // left-associative chain: bare unless every level is parenthesized
                                if *o2 == Op::Slash || *o2 == Op::DSlash { self.e(l, lv); } else { self.e(l, lv); }
                            } else { self.e(l, lv); }
                        }
                        self.p(optext(*op));
                        self.e(r, 19);
                    }
                    Op::Bang => { self.e(l, lv); self.p("!"); self.e(r, lv + 1); }
                    _ => {
                        let from = self.out.len();
                        let nonassoc = lv == 4 || lv == 6;
                        self.e(l, if nonassoc { lv + 1 } else { lv });
                        if matches!(op, Op::Mul | Op::Add) && self.out.last().map(|t| t.k == TK::TypeEnd).unwrap_or(false) {
                            // '*' or '+' would be taken as an occurrence indicator
                            self.out.insert(from, Tok { t: "(".into(), k: TK::Punct });
                            self.p(")");
                        }
                        let t = optext(*op);
                        let t = if *op == Op::Union && self.rng.chance(1, 2) { "union" } else { t };
                        if t.chars().all(|c| c.is_ascii_lowercase()) { self.w(t) } else { self.op(t) }
                        self.e(r, lv + 1);
                    }
                }
            }
            E::Inst(x, t) => { self.e(x, 12); self.w("instance"); self.w("of"); self.ty(t); }
            E::Castable(x, a, opt) => { self.e(x, 14); self.w("castable"); self.w("as"); self.atom(*a, *opt); }
            E::Cast(x, a, opt) => { self.e(x, 15); self.w("cast"); self.w("as"); self.atom(*a, *opt); }
            E::Arrow(x, c, a) => {
                self.e(x, 15);
                self.op("=>");
                match &**c { Callee::Name(n) => self.w(n), Callee::Var(n) => self.w(&format!("${}", n)), Callee::Expr(x) => { self.p("("); self.top(x); self.p(")"); } }
                self.p("(");
                for (i, x) in a.iter().enumerate() { if i > 0 { self.p(","); } match x { Some(x) => self.e(x, 1), None => self.p("?") } }
                self.p(")");
            }
            E::Neg(x) => { self.op("-"); self.e(x, 16); }
            E::Plus(x) => { self.op("+"); self.e(x, 16); }
            E::Step(a, t, preds) => {
                let mut abbreviated = false;
                if self.st.abbrev {
                    match (a, t) {
                        (Axis::Child, Test::Attribute(_)) => {}
                        (Axis::Child, _) => { self.test(t); abbreviated = true; }
                        (Axis::Attribute, Test::Attribute(_)) if self.rng.chance(1, 2) => { self.test(t); abbreviated = true; }
                        (Axis::Attribute, _) if self.rng.chance(2, 3) => { self.p("@"); self.test(t); abbreviated = true; }
                        (Axis::Parent, Test::Node) if self.rng.chance(2, 3) => { self.p(".."); abbreviated = true; }
                        _ => {}
                    }
                }
                if !abbreviated { self.w(a.name()); self.p("::"); self.test(t); }
                for x in preds { self.p("["); self.top(x); self.p("]"); }
            }
            E::Filter(x, pr) => { self.base(x); self.p("["); self.top(pr); self.p("]"); }
            E::Dyn(x, a) => {
                // a name or keyword before '(' would read as a call
                self.base(x);
                self.args(a);
            }
            E::Lookup(x, k) => { self.base(x); self.p("?"); self.key(k); }
            E::ULookup(k) => { self.p("?"); self.key(k); }
            E::Call(n, a) => { self.w(n); self.args(a); }
            E::FRef(n, k) => self.w(&format!("{}#{}", n, k)),
            E::Inline(ps, ret, body) => {
                self.w("function"); self.p("(");
                for (i, (n, t)) in ps.iter().enumerate() {
                    if i > 0 { self.p(","); }
                    self.w(&format!("${}", n));
                    if let Some(t) = t { self.w("as"); self.ty(t); }
                }
                self.p(")");
                if let Some(t) = ret { self.w("as"); self.ty(t); }
                self.p("{"); self.top(body); self.p("}");
            }
            E::Map(v) => {
                self.w("map"); self.p("{");
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { self.p(","); }
                    self.e(k, 1); self.op(":"); self.e(x, 1);
                }
                self.p("}");
            }
            E::ArrS(v) => { self.p("["); for (i, x) in v.iter().enumerate() { if i > 0 { self.p(","); } self.e(x, 1); } self.p("]"); }
            E::ArrC(v) => { self.w("array"); self.p("{"); if let Some(x) = v { self.top(x); } self.p("}"); }
        }
    }
    fn atom(&mut self, a: Atom, opt: bool) {
        self.w(atom_name(a));
        if opt { self.out.push(Tok { t: "?".into(), k: TK::OccInd }); } else { self.out.last_mut().unwrap().k = TK::TypeEnd; }
    }
}

fn name_char(c: char) -> bool { c.is_alphanumeric() || c == '-' || c == '_' || c == '.' || c == ':' || c == '$' || c == '#' || c == '*' || c == '@' }

/// Whether white space between two tokens is required (or wise).
fn must_space(a: &Tok, b: &Tok) -> bool {
    let la = a.t.chars().last().unwrap_or(' ');
    let fb = b.t.chars().next().unwrap_or(' ');
    let wordy = |k: TK| matches!(k, TK::Word | TK::Num | TK::TypeEnd);
    // separate words, and words from operators that could join them
    if wordy(a.k) && wordy(b.k) && a.t != ")" && b.t != "(" { return true; }
    if a.k == TK::OccInd && b.k == TK::Op { return true; }
    if b.k == TK::Op {
        let name_end = a.k != TK::Num && (la.is_alphanumeric() || la == '_' || la == '-' || la == '.' && a.t.len() > 2) && a.k != TK::Str;
        return match b.t.as_str() {
            "-" => name_end,
            ":" => name_end || la == '*',
            _ => a.k == TK::Op && b.t != "+" || a.t == "!" && fb == '=',
        };
    }
    if a.k == TK::Op { return false; }
    if a.k == TK::OccInd { return true; }
    if (a.t == "." || a.t == "..") && (wordy(b.k) || fb == '.' ) { return true; }
    if (b.t == "." || b.t == "..") && (wordy(a.k) || la == '.') { return true; }
    if a.t == "/" && b.t == "/" || a.t == "/" && b.t == "//" || a.t == "//" && b.t == "/" { return true; }
    if a.t == "!" && fb == '=' { return true; }
    if a.k == TK::Str && b.k == TK::Str { return true; }
    false
}

pub fn join(toks: &[Tok], space: Space, rng: &mut Rng) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let a = &toks[i - 1];
            match space {
                Space::Single => {
                    let glue = must_space(a, t) || a.k == TK::Op || t.k == TK::Op || a.t == "," || (matches!(a.k, TK::Word) && is_keyword(&a.t) && t.t == "(") || (t.k == TK::Word && is_keyword(&t.t) && a.t == ")");
                    let callish = t.t == "(" && a.k == TK::Word && !is_keyword(&a.t);
                    if glue && !callish && t.k != TK::OccInd { s.push(' '); }
                }
                Space::Tight => if must_space(a, t) && t.k != TK::OccInd { s.push(' '); },
                Space::Wild => {
                    if rng.chance(1, 3) && !(must_space(a, t) && t.k != TK::OccInd) { /* none */ } else { s.push_str(&wild_space(rng)); }
                }
            }
        } else if space == Space::Wild && rng.chance(1, 4) { s.push_str(&wild_space(rng)); }
        s.push_str(&t.t);
    }
    if space == Space::Wild && rng.chance(1, 4) { s.push_str(&wild_space(rng)); }
    s
}

pub fn is_keyword(t: &str) -> bool {
    matches!(t, "for" | "let" | "some" | "every" | "in" | "return" | "satisfies" | "if" | "then" | "else" | "or" | "and" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "is" | "to" | "div" | "idiv" | "mod" | "union" | "intersect" | "except" | "instance" | "of" | "castable" | "cast" | "as")
}

/// A comment drawn at random: `(: .. :)` with balanced comments in it.
pub fn comment(r: &mut Rng) -> String {
    loop {
        let mut t = String::from("(:");
        for _ in 0..r.below(9) { t += &r.s(&["(", ":", ")", "x", " ", "(", ":", ")", "(:", ":)", "'", "\"", "\n", "1", "[", "}"]); }
        t += ":)";
        // the grammar is ambiguous about where "(:)" opens and closes: only what
        // reads the same both ways counts
        let c: Vec<char> = t.chars().collect();
        if c.windows(3).skip(1).any(|w| w == ['(', ':', ')']) || c.len() < 4 || t.starts_with("(:)") { continue; }
        let (mut i, mut n) = (0, 0);
        let mut end = None;
        while i + 1 < c.len() {
            if c[i] == '(' && c[i + 1] == ':' { n += 1; i += 2; }
            else if c[i] == ':' && c[i + 1] == ')' { n -= 1; i += 2; if n == 0 { end = Some(i); break; } }
            else { i += 1; }
        }
        if end == Some(c.len()) { return t; }
    }
}
pub fn wild_space(r: &mut Rng) -> String {
    match r.below(10) {
        9 if r.chance(1, 4) => {
            // deep nesting
            let n = 2 + r.below(12);
            let mut t = r.s(&["", "x", " ' ", ")", "\n"]);
            for _ in 0..n { t = format!("(:{}{}{}:)", r.s(&["", " ", "a", " : "]), t, r.s(&["", " ", "b", "(: :)"])); if t.contains("(:)") { t = "x".into(); } }
            if t == "x" { " ".into() } else { t }
        }
        8 | 9 => comment(r),
        0 => "\n".into(), 1 => "\t ".into(), 2 => "  ".into(), 3 => "(: c :)".into(), 4 => "\r\n".into(),
        5 => r.s(&["(: a (: nested :) b :)", "(:(::):)", "(:x:)(:y:)", "(: ' \" ) ] :)", "(: : ( :)", "(: 漢字 :)", "(:::)"]),
        _ => " ".into(),
    }
}

pub fn render(e: &E, rng: &mut Rng, st: Style) -> String {
    let space = st.space;
    let toks = tokens(e, rng, st);
    join(&toks, space, rng)
}
pub fn tokens(e: &E, rng: &mut Rng, st: Style) -> Vec<Tok> {
    let mut r = R { rng, st, out: vec![] };
    r.top(e);
    r.out
}
pub fn canon(e: &E) -> String {
    let mut rng = Rng::new(7);
    render(e, &mut rng, CANON)
}
