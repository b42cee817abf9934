//! Random expressions, typed so that most of them mean something, with a
//! share of ill-typed ones.
use crate::ast::*;
use crate::model::{Doc, Kind};
use crate::rng::Rng;

/// What a generated expression (or a variable) is meant to yield.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T { Int, Num, Str, Bool, Node, Nodes, Seq, Ints, Strs, Map, Arr }

/// What '.' is.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Foc { Node, Int, Str, Mixed, None }

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub d: &'a Doc,
    pub vars: Vec<(String, T)>,
    pub foc: Foc,
    pub pos_ok: bool,
    /// one in `wild` sub-expressions is of a random type (0: none)
    pub wild: usize,
    pub next_var: usize,
}

pub const STRS: &[&str] = &[
    "", "a", "b", "abc", "abcabc", "ab", "bc", "B", "x y", " ", "10", "3", "2.5", "-1", "0", "true", "false", "it's", "say \"hi\"", "é", "日本語", "日", "😀", "a😀b", "Ünïcode", "ß", "aé日😀z", "1e3", "en", "k", "id", "ABC", "abd", "tO", ":", "(: no :)", "&", "<a>", "12abc",
];
pub const WORDS: &[&str] = &["a", "b", "ab", "ba", "aa", "bb", "aba", "", "é", "日", "😀", "aé", "日本", "b日"];
pub const DECS: &[&str] = &["0.0", "0.5", "1.5", "2.5", "1.0", "2.0", "10.25", "0.1", "3.", ".5", "99.99", "1000000.5", "0.25", "123456789.125", "4.0"];
pub const DBLS: &[&str] = &["0e0", "1e0", "1.5e0", "2.5e0", "1e3", "1E2", "2.5e-1", "1e10", "1e-5", "1.e1", ".5e1", "3e0", "2e0", "1e300", "4.9e-324", "1.7976931348623157e308", "9007199254740993e0", "1e+2"];
pub const VARS: &[&str] = &["x", "y", "z", "v", "w", "a", "b", "long-name", "x1", "in", "return", "if"];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, d: &'a Doc) -> G<'a> {
        G { r, d, vars: vec![], foc: Foc::Node, pos_ok: false, wild: 60, next_var: 0 }
    }

    pub fn ch(&mut self, a: usize, b: usize) -> bool { self.r.chance(a, b) }

    fn var_of(&mut self, ts: &[T]) -> Option<E> {
        let mut seen: Vec<&str> = vec![];
        let mut c: Vec<String> = vec![];
        for (n, t) in self.vars.iter().rev() {
            if seen.contains(&n.as_str()) { continue; }
            seen.push(n);
            if ts.contains(t) { c.push(n.clone()); }
        }
        if c.is_empty() { None } else { Some(E::Var(self.r.pick(&c).clone())) }
    }
    pub fn fresh(&mut self) -> String { self.r.s(VARS) }

    pub fn of(&mut self, t: T, d: usize) -> E {
        if self.wild > 0 && self.r.chance(1, self.wild) { return self.any(d); }
        match t {
            T::Int => self.int(d), T::Num => self.num(d), T::Str => self.strv(d), T::Bool => self.boolv(d), T::Node => self.node1(d),
            T::Nodes => self.nodes(d), T::Seq => self.seq(d), T::Ints => self.ints(d), T::Strs => self.strs(d), T::Map => self.map(d), T::Arr => self.arr(d),
        }
    }
    pub fn any(&mut self, d: usize) -> E {
        let t = *self.r.pick(&[T::Int, T::Num, T::Str, T::Bool, T::Node, T::Nodes, T::Seq, T::Ints, T::Strs, T::Map, T::Arr]);
        match t {
            T::Int => self.int(d), T::Num => self.num(d), T::Str => self.strv(d), T::Bool => self.boolv(d), T::Node => self.node1(d),
            T::Nodes => self.nodes(d), T::Seq => self.seq(d), T::Ints => self.ints(d), T::Strs => self.strs(d), T::Map => self.map(d), T::Arr => self.arr(d),
        }
    }
    /// Any single-item or plain sequence without maps and arrays.
    pub fn plain(&mut self, d: usize) -> E {
        match self.r.below(6) { 0 => self.num(d), 1 => self.strv(d), 2 => self.boolv(d), 3 => self.nodes(d), 4 => self.seq(d), _ => self.int(d) }
    }
    /// Evaluates `f` with another focus.
    pub fn within<X>(&mut self, foc: Foc, f: impl FnOnce(&mut G<'a>) -> X) -> X {
        let (o, p) = (self.foc, self.pos_ok);
        self.foc = foc;
        self.pos_ok = foc != Foc::None;
        let x = f(self);
        self.foc = o;
        self.pos_ok = p;
        x
    }
    pub fn with_var<X>(&mut self, n: &str, t: T, f: impl FnOnce(&mut G<'a>) -> X) -> X {
        self.vars.push((n.to_string(), t));
        let x = f(self);
        self.vars.pop();
        x
    }

    // ---- literals
    pub fn int_lit(&mut self) -> E {
        match self.r.below(12) {
            0 => int(0), 1 => int(self.r.range(-5, 5)), 2 => int(self.r.range(0, 100)),
            3 if self.r.chance(1, 3) => { let n = *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 4294967296, -4294967296, 3037000500, 9007199254740993, 1 << 62, 1000000007]); int(n) }
            _ => int(self.r.range(0, 6)),
        }
    }
    pub fn dec_lit(&mut self) -> E { E::Dec(self.r.s(DECS)) }
    pub fn dbl_lit(&mut self) -> E {
        match self.r.below(12) {
            0 => b(Op::Div, E::Dbl("1e0".into()), int(0)),
            1 => b(Op::Div, E::Neg(Box::new(E::Dbl("1e0".into()))), int(0)),
            2 => call("number", vec![s("x")]),
            3 => E::Neg(Box::new(E::Dbl("0e0".into()))),
            _ => E::Dbl(self.r.s(DBLS)),
        }
    }
    pub fn str_lit(&mut self) -> E {
        if self.ch(1, 90) {
            let n = *self.r.pick(&[15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024]);
            let c = *self.r.pick(&['x', ' ', 'é', '日', '😀', '"', '\'', '&']);
            let mut t: String = std::iter::repeat(c).take(n).collect();
            if self.ch(1, 2) { t.insert(0, *self.r.pick(&['a', '😀', ' '])); }
            if self.ch(2, 3) { t.push(*self.r.pick(&['a', 'é', '日', '😀', ' ', '.'])); }
            return E::Str(t);
        }
        if self.ch(1, 3) { return E::Str(self.r.s(WORDS)); }
        E::Str(self.r.s(STRS))
    }
    pub fn num_lit(&mut self) -> E {
        let e = match self.r.below(4) { 0 | 1 => self.int_lit(), 2 => self.dec_lit(), _ => self.dbl_lit() };
        if self.ch(1, 6) { E::Neg(Box::new(e)) } else { e }
    }

    // ---- typed expressions
    fn wrap(&mut self, t: T, d: usize) -> E {
        // forms that yield what their sub-expression yields
        let k = self.r.below(9);
        match k {
            0 => { let c = self.boolv(d - 1); let x = self.of(t, d - 1); let y = self.of(t, d - 1); E::If(Box::new(c), Box::new(x), Box::new(y)) }
            1 | 2 => {
                let vt = *self.r.pick(&[T::Int, T::Str, T::Nodes, T::Seq, T::Num]);
                let v = self.of(vt, d - 1);
                let n = self.fresh();
                let body = self.with_var(&n, vt, |g| g.of(t, d - 1));
                E::Let(vec![(n, v)], Box::new(body))
            }
            3 => {
                let a = self.of(t, d - 1);
                let k = self.r.below(3);
                let mut v = vec![];
                for _ in 0..k { v.push(self.plain(0)); }
                v.push(a);
                let at = v.len() as i64;
                E::Dyn(Box::new(E::ArrS(v)), vec![Some(int(at))])
            }
            4 => {
                let a = self.of(t, d - 1);
                let k = *self.r.pick(&["k", "id", "x-y"]);
                let m = E::Map(vec![(s("other"), int(0)), (s(k), a)]);
                if self.ch(1, 2) { E::Lookup(Box::new(m), Key::Name(k.into())) } else { E::Dyn(Box::new(m), vec![Some(s(k))]) }
            }
            5 => {
                // a call of an inline function
                let vt = *self.r.pick(&[T::Int, T::Str, T::Nodes, T::Seq]);
                let n = self.fresh();
                let arg = self.of(vt, d - 1);
                let body = self.within(Foc::None, |g| g.with_var(&n, vt, |g| g.of(t, d - 1)));
                E::Dyn(Box::new(E::Inline(vec![(n, None)], None, Box::new(body))), vec![Some(arg)])
            }
            6 => {
                let x = self.of(t, d - 1);
                E::Seq(vec![x])
            }
            7 => {
                let x = self.of(t, d - 1);
                if matches!(t, T::Int | T::Str | T::Num | T::Bool | T::Node) { call(*self.r.pick(&["exactly-one", "zero-or-one", "head", "reverse"]), vec![x]) } else { x }
            }
            _ => {
                let n = self.nodes(d - 1);
                let x = self.within(Foc::Node, |g| g.of(t, d - 1));
                // the first of a mapped sequence
                let m = b(Op::Bang, n, x);
                if matches!(t, T::Int | T::Str | T::Num | T::Bool | T::Node) {
                    let alt = match t { T::Str => s("none"), T::Bool => call("true", vec![]), T::Node => E::Ctx, _ => int(1) };
                    if t == T::Node && self.foc != Foc::Node { return filter(m, int(1)); }
                    filter(E::Seq(vec![m, alt]), int(1))
                } else { m }
            }
        }
    }

    pub fn int(&mut self, d: usize) -> E {
        if self.ch(1, 4) { if let Some(v) = self.var_of(&[T::Int]) { return v; } }
        if d == 0 {
            if self.foc == Foc::Int && self.ch(1, 2) { return E::Ctx; }
            if self.pos_ok && self.ch(1, 4) { return call(*self.r.pick(&["position", "last"]), vec![]); }
            return self.int_lit();
        }
        match self.r.below(12) {
            0 | 1 => { let op = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Idiv, Op::Mod]); let l = self.of(T::Int, d - 1); let r = self.of(T::Int, d - 1); b(op, l, r) }
            2 => { let n = self.of(T::Nodes, d - 1); call("count", vec![n]) }
            3 => { let n = self.of(T::Seq, d - 1); call("count", vec![n]) }
            4 => { let n = self.of(T::Str, d - 1); call("string-length", vec![n]) }
            5 => { let n = self.of(T::Ints, d - 1); call("sum", vec![n]) }
            6 => { let n = self.of(T::Int, d - 1); E::Neg(Box::new(n)) }
            7 => { let n = self.of(T::Int, d - 1); call(*self.r.pick(&["abs", "round", "floor", "ceiling"]), vec![n]) }
            8 => { let n = self.of(T::Num, d - 1); E::Cast(Box::new(n), Atom::Integer, false) }
            9 => self.wrap(T::Int, d),
            _ => self.int(0),
        }
    }
    pub fn num(&mut self, d: usize) -> E {
        if self.ch(1, 5) { if let Some(v) = self.var_of(&[T::Int, T::Num]) { return v; } }
        if d == 0 { return self.num_lit(); }
        match self.r.below(10) {
            0 | 1 => { let op = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod]); let l = self.of(T::Num, d - 1); let r = self.of(T::Num, d - 1); b(op, l, r) }
            2 => { let n = self.of(T::Num, d - 1); call(*self.r.pick(&["abs", "round", "floor", "ceiling"]), vec![n]) }
            3 => { let n = self.of(T::Node, d - 1); call("number", vec![n]) }
            4 => { let n = self.of(T::Str, d - 1); call("number", vec![n]) }
            5 => { let n = self.of(T::Num, d - 1); E::Cast(Box::new(n), *self.r.pick(&[Atom::Double, Atom::Decimal]), false) }
            6 => self.wrap(T::Num, d),
            7 => self.int(d),
            _ => self.num_lit(),
        }
    }
    pub fn strv(&mut self, d: usize) -> E {
        if self.ch(1, 4) { if let Some(v) = self.var_of(&[T::Str]) { return v; } }
        if d == 0 {
            if self.foc == Foc::Str && self.ch(1, 2) { return E::Ctx; }
            if self.foc == Foc::Node && self.ch(1, 4) { return call(*self.r.pick(&["string", "name", "local-name"]), vec![]); }
            return self.str_lit();
        }
        match self.r.below(14) {
            0 => { let l = self.of(T::Str, d - 1); let r = self.of(T::Str, d - 1); b(Op::Concat, l, r) }
            1 => { let n = 2 + self.r.few(3); let mut a = vec![]; for i in 0..n { let d = if i > 5 { 1 } else { d }; a.push(if self.ch(1, 3) { self.of(T::Num, d - 1) } else { self.of(T::Str, d - 1) }); } call("concat", a) }
            2 => { let a = self.of(T::Node, d - 1); call("string", vec![a]) }
            3 => { let a = self.of(T::Int, d - 1); call("string", vec![a]) }
            4 => { let a = self.of(T::Str, d - 1); let x = self.of(T::Int, 0); let mut v = vec![a, x]; if self.ch(1, 2) { v.push(self.of(T::Int, 0)); } call("substring", v) }
            5 => { let a = self.of(T::Str, d - 1); call(*self.r.pick(&["upper-case", "lower-case"]), vec![a]) }
            6 => { let a = self.of(T::Str, d - 1); let x = self.of(T::Str, 0); call(*self.r.pick(&["substring-before", "substring-after"]), vec![a, x]) }
            7 => { let a = self.of(T::Strs, d - 1); let x = self.of(T::Str, 0); call("string-join", vec![a, x]) }
            8 => { let a = self.of(T::Str, d - 1); call("translate", vec![a, s("abc"), s("xA")]) }
            9 => { let a = self.of(T::Node, d - 1); call(*self.r.pick(&["name", "local-name", "namespace-uri"]), vec![a]) }
            10 => { let a = self.of(T::Str, d - 1); let c = call("string-to-codepoints", vec![a]); call("codepoints-to-string", vec![call("reverse", vec![c])]) }
            11 => self.wrap(T::Str, d),
            12 => { let t = *self.r.pick(&[T::Int, T::Bool]); let x = self.of(t, d - 1); E::Cast(Box::new(x), Atom::Str, false) }
            _ => self.strv(0),
        }
    }
    pub fn boolv(&mut self, d: usize) -> E {
        if self.ch(1, 6) { if let Some(v) = self.var_of(&[T::Bool]) { return v; } }
        if d == 0 { return call(*self.r.pick(&["true", "false"]), vec![]); }
        match self.r.below(15) {
            0 | 1 => { let op = *self.r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]); let t = *self.r.pick(&[T::Int, T::Num, T::Str, T::Bool]); let l = self.of(t, d - 1); let r = self.of(t, d - 1); b(op, l, r) }
            2 | 3 => {
                let op = *self.r.pick(&[Op::GEq, Op::GNe, Op::GLt, Op::GLe, Op::GGt, Op::GGe]);
                let (t, u) = *self.r.pick(&[(T::Ints, T::Int), (T::Ints, T::Ints), (T::Strs, T::Str), (T::Nodes, T::Str), (T::Str, T::Nodes), (T::Nodes, T::Nodes)]);
                let l = self.of(t, d - 1); let r = self.of(u, d - 1); b(op, l, r)
            }
            4 => { let x = self.of(T::Bool, d - 1); call("not", vec![x]) }
            5 | 6 => { let op = *self.r.pick(&[Op::And, Op::Or]); let l = self.of(T::Bool, d - 1); let r = self.of(T::Bool, d - 1); b(op, l, r) }
            7 => { let x = self.of(T::Nodes, d - 1); call(*self.r.pick(&["exists", "empty", "boolean", "not"]), vec![x]) }
            8 => {
                let every = self.ch(1, 2);
                let vt = *self.r.pick(&[T::Ints, T::Nodes, T::Strs]);
                let x = self.of(vt, d - 1);
                let n = self.fresh();
                let one = match vt { T::Ints => T::Int, T::Nodes => T::Node, _ => T::Str };
                let c = self.with_var(&n, one, |g| g.of(T::Bool, d - 1));
                E::Quant(every, vec![(n, x)], Box::new(c))
            }
            9 => { let x = self.any(d - 1); let t = self.ty(1); E::Inst(Box::new(x), t) }
            10 => { let x = self.of(T::Str, d - 1); let y = self.of(T::Str, 0); call(*self.r.pick(&["contains", "starts-with", "ends-with", "codepoint-equal"]), vec![x, y]) }
            11 => { let x = self.plain(d - 1); let a = *self.r.pick(&[Atom::Integer, Atom::Boolean, Atom::Decimal, Atom::Str, Atom::Double]); let o = self.ch(1, 3); E::Castable(Box::new(x), a, o) }
            12 => { let x = self.of(T::Node, d - 1); let y = self.of(T::Node, d - 1); b(*self.r.pick(&[Op::Is, Op::Before, Op::After]), x, y) }
            13 => self.wrap(T::Bool, d),
            _ => { let x = self.plain(d - 1); call("boolean", vec![x]) }
        }
    }

    // ---- types
    pub fn item(&mut self, d: usize) -> Item {
        match self.r.below(if d > 0 { 22 } else { 16 }) {
            0 => Item::Any, 1 => Item::Integer, 2 => Item::Decimal, 3 => Item::Double, 4 => Item::Numeric, 5 => Item::Str, 6 => Item::Boolean, 7 => Item::AnyAtomic,
            8 => Item::Node, 9 => Item::Element(None), 10 => Item::Attribute(None), 11 => Item::Text, 12 => Item::Comment, 13 => Item::Pi(None),
            14 => Item::Element(self.kind_arg(false, true)), 15 => Item::Attribute(self.kind_arg(true, true)),
            16 => Item::MapAny, 17 => Item::ArrayAny, 18 => Item::FunAny,
            19 => { let t = self.ty(d - 1); Item::ArrayOf(Box::new(t)) }
            20 => { let k = self.r.pick(&[Item::Str, Item::Integer, Item::AnyAtomic, Item::Numeric]).clone(); let t = self.ty(d - 1); Item::MapOf(Box::new(k), Box::new(t)) }
            _ => Item::Pi(Some(self.pi_target())),
        }
    }
    pub fn ty(&mut self, d: usize) -> Ty {
        if self.ch(1, 14) { return Ty::EmptySeq; }
        let i = self.item(d);
        Ty::Of(i, *self.r.pick(&[Occ::One, Occ::One, Occ::Opt, Occ::Star, Occ::Plus]))
    }

    // ---- nodes
    pub fn elem_name(&mut self) -> String {
        let e = self.d.elems();
        if e.is_empty() || self.ch(1, 10) { return self.r.s(&["a", "b", "zz", "n:a", "to", "div"]); }
        let i = *self.r.pick(&e);
        self.d.nodes[i].name.clone()
    }
    /// The target of a processing instruction of the document, or one near it.
    pub fn pi_target(&mut self) -> String {
        let v: Vec<usize> = (0..self.d.nodes.len()).filter(|i| self.d.nodes[*i].kind == Kind::Pi).collect();
        if v.is_empty() || self.ch(1, 3) { return self.r.s(&["p", "q", "pq", "p-q", "qp", "zz"]); }
        let i = *self.r.pick(&v);
        let t = self.d.nodes[i].name.clone();
        let n = t.chars().count();
        if n > 1 && self.ch(1, 4) { let c: String = t.chars().take(n - 1).collect(); if !c.ends_with(|c: char| !c.is_alphanumeric()) { return c; } }
        t
    }
    pub fn attr_name(&mut self) -> String {
        let v: Vec<usize> = (0..self.d.nodes.len()).filter(|i| self.d.nodes[*i].kind == Kind::Attr).collect();
        if !v.is_empty() && self.ch(1, 2) { let i = *self.r.pick(&v); return self.d.nodes[i].name.clone(); }
        if self.ch(1, 12) { return self.r.s(&["zz", "n:k"]); }
        self.r.s(&["id", "k", "x"])
    }
    /// Argument of element() or attribute() in a step or a type.
    pub fn kind_arg(&mut self, attr: bool, near: bool) -> Option<String> {
        if self.ch(1, 4) { return None; }
        let n = if self.ch(1, 4) { "*".to_string() } else if near { if attr { self.r.s(&["id", "k", "i"]) } else { self.r.s(&["a", "b", "aa"]) } } else if attr { self.attr_name() } else { self.elem_name() };
        if !self.ch(1, 3) { return Some(n); }
        let t = if attr {
            self.r.s(&["xs:untypedAtomic", "xs:untypedAtomic", "xs:anyAtomicType", "xs:anySimpleType", "xs:anyType", "xs:string", "xs:integer", "xs:untyped", "xs:decimal"])
        } else {
            self.r.s(&["xs:untyped", "xs:untyped", "xs:anyType", "xs:anyType", "xs:anyType?", "xs:untyped?", "xs:untypedAtomic", "xs:anySimpleType", "xs:integer", "xs:decimal?", "xs:string"])
        };
        Some(format!("{},{}", n, t))
    }
    pub fn ntest(&mut self, a: Axis) -> Test {
        if a == Axis::Attribute {
            return match self.r.below(8) {
                0 | 1 | 2 => Test::Name(self.attr_name()), 3 | 4 => Test::Star, 5 => Test::Node, 6 => Test::Attribute(self.kind_arg(true, false)),
                _ => match self.r.below(4) { 0 => Test::PrefixStar("n".into()), 1 => Test::StarLocal(self.r.s(&["k", "id"])), 2 => Test::Text, _ => Test::Element(None) },
            };
        }
        match self.r.below(16) {
            0..=4 => Test::Name(self.elem_name()),
            5 | 6 | 7 => Test::Star,
            8 | 9 => Test::Node,
            10 => Test::Text,
            11 => Test::Comment,
            12 => Test::Pi(if self.ch(1, 2) { None } else { Some(self.pi_target()) }),
            13 => Test::Element(self.kind_arg(false, false)),
            14 => match self.r.below(3) { 0 => Test::PrefixStar(self.r.s(&["n", "m"])), _ => Test::StarLocal(self.r.s(&["a", "b", "k"])) },
            _ => Test::Attribute(None),
        }
    }
    pub fn axis(&mut self) -> Axis {
        if self.ch(2, 5) { return *self.r.pick(&[Axis::Child, Axis::Child, Axis::Descendant, Axis::Attribute]); }
        *self.r.pick(&AXES)
    }
    pub fn astep(&mut self, preds: usize, d: usize) -> E {
        let a = self.axis();
        let t = self.ntest(a);
        let mut ps = vec![];
        for _ in 0..self.r.below(preds + 1) { ps.push(self.within(Foc::Node, |g| g.pred(d))); }
        E::Step(a, t, ps)
    }
    /// A predicate over nodes.
    pub fn pred(&mut self, d: usize) -> E {
        match self.r.below(12) {
            0 | 1 | 2 => { let k = match self.r.below(16) { 0 | 1 => 0, 2 => self.r.range(5, 40), 3 => { let k = self.r.range(1, 4); self.wrapped(k) } _ => self.r.range(1, 4) }; int(k) }
            3 => call("last", vec![]),
            4 => { let o = *self.r.pick(&[Op::GEq, Op::GNe, Op::GLt, Op::GGe, Op::Eq, Op::Le]); let k = int(self.r.range(1, 4)); b(o, call("position", vec![]), k) }
            5 => b(Op::Sub, call("last", vec![]), int(1)),
            6 => { let t = self.ntest(Axis::Attribute); step(Axis::Attribute, t) }
            7 => { let l = step(Axis::Attribute, Test::Name(self.attr_name())); let v = self.value_lit(); b(*self.r.pick(&[Op::GEq, Op::GNe, Op::GLt]), l, v) }
            8 => { let t = self.ntest(Axis::Child); step(Axis::Child, t) }
            9 => b(Op::GEq, b(Op::Mod, call("position", vec![]), int(2)), int(self.r.range(0, 1))),
            10 if d > 0 && self.ch(1, 3) => {
                // the focus after an inner predicate is the one before it
                let a = *self.r.pick(&[Axis::Child, Axis::Descendant, Axis::FollowingSibling, Axis::PrecedingSibling, Axis::Following, Axis::Preceding, Axis::Ancestor, Axis::Attribute, Axis::DescendantOrSelf]);
                let t = self.ntest(a);
                let q = self.within(Foc::Node, |g| g.pred(0));
                let inner = E::Step(a, t, vec![q]);
                let inner = if self.ch(1, 2) { inner } else { b(Op::DSlash, E::Root, inner) };
                let pos = match self.r.below(4) { 0 => b(Op::GEq, call("position", vec![]), call("last", vec![])), 1 => b(Op::GLt, call("position", vec![]), call("last", vec![])), 2 => { let k = self.r.range(1, 3); b(Op::GEq, call("position", vec![]), int(k)) } _ => { let k = self.r.range(1, 4); b(*self.r.pick(&[Op::GEq, Op::GGe, Op::GLt]), call("last", vec![]), int(k)) } };
                match self.r.below(6) {
                    0 => b(*self.r.pick(&[Op::GLe, Op::GLt, Op::GEq]), call("count", vec![inner]), call(*self.r.pick(&["position", "last"]), vec![])),
                    1 => b(*self.r.pick(&[Op::Add, Op::Sub]), call(*self.r.pick(&["position", "last"]), vec![]), b(Op::Mul, int(0), call("count", vec![inner]))),
                    2 => b(Op::Or, call("empty", vec![inner]), pos),
                    3 => b(*self.r.pick(&[Op::And, Op::Or]), pos, call("exists", vec![inner])),
                    _ => b(Op::And, call("exists", vec![inner]), pos),
                }
            }
            10 if d > 0 => self.boolv(d - 1),
            11 if d > 0 => { let x = self.nodes(d - 1); if self.ch(1, 2) { call("not", vec![x]) } else { x } }
            _ => if self.ch(1, 3) { E::Dbl(self.r.s(&["1e0", "2.0e0", "20e-1", "1.0000001e0", "1.9999999999e0", "0.1e1", "2.0000000001e0"])) } else { E::Dec(self.r.s(&["1.0", "1.5", "2.0", "2.0000001", "1.9999999999", "1.000000000001", "0.99999999999", "3.00", "2.00001", "0.5"])) },
        }
    }
    /// A number that looks like n in fewer bits.
    pub fn wrapped(&mut self, n: i64) -> i64 {
        let w = *self.r.pick(&[1i64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 32, 3 << 32, 1 << 53, 1 << 62, i64::MIN]);
        let n = if self.ch(1, 3) { n.wrapping_sub(w) } else { n.wrapping_add(w) };
        if n == i64::MIN { n + 1 } else { n }
    }
    /// A string that occurs as a value in the document.
    pub fn value_lit(&mut self) -> E {
        let v: Vec<usize> = (0..self.d.nodes.len()).filter(|i| !self.d.nodes[*i].value.is_empty()).collect();
        if v.is_empty() || self.ch(1, 4) { return self.str_lit(); }
        let i = *self.r.pick(&v);
        E::Str(self.d.nodes[i].value.clone())
    }
    pub fn path(&mut self, d: usize) -> E {
        let dd = d.saturating_sub(1);
        let mut e = if self.foc == Foc::Node && !self.ch(1, 5) {
            match self.r.below(5) {
                0 | 1 => self.astep(1, dd),
                2 => E::Root,
                3 => { let st = self.astep(1, dd); b(Op::Slash, E::Root, st) }
                _ => { let st = self.astep(1, dd); b(Op::DSlash, E::Root, st) }
            }
        } else if let Some(v) = self.var_of(&[T::Node, T::Nodes]) { v }
        else if self.foc == Foc::Node { E::Ctx }
        else { return self.node_source(); };
        let n = self.r.few(3) + if e == E::Root { 1 } else { 0 };
        for _ in 0..n {
            let st = if self.ch(1, 12) { E::DotDot } else if self.ch(1, 20) { E::Ctx } else { self.within(Foc::Node, |g| g.astep(2, dd)) };
            let op = if self.ch(1, 4) { Op::DSlash } else { Op::Slash };
            e = b(op, e, st);
        }
        e
    }
    /// Nodes where the context is of no help.
    fn node_source(&mut self) -> E {
        if let Some(v) = self.var_of(&[T::Node, T::Nodes]) { return v; }
        E::Empty
    }
    pub fn nodes(&mut self, d: usize) -> E {
        if self.ch(1, 6) { if let Some(v) = self.var_of(&[T::Nodes, T::Node]) { return v; } }
        if d == 0 { return self.path(0); }
        match self.r.below(14) {
            0..=5 => self.path(d),
            6 => { let l = self.of(T::Nodes, d - 1); let r = self.of(T::Nodes, d - 1); b(*self.r.pick(&[Op::Union, Op::Union, Op::Intersect, Op::Except]), l, r) }
            7 => { let l = self.of(T::Nodes, d - 1); let p = self.within(Foc::Node, |g| g.pred(d - 1)); filter(l, p) }
            8 => { let l = self.of(T::Nodes, d - 1); let r = self.within(Foc::Node, |g| g.of(T::Nodes, d - 1)); b(Op::Slash, l, r) }
            9 => { let l = self.of(T::Nodes, d - 1); call(*self.r.pick(&["reverse", "tail", "head"]), vec![l]) }
            10 => { let l = self.of(T::Nodes, d - 1); let r = self.of(T::Nodes, d - 1); E::Seq(vec![l, r]) }
            11 => {
                let l = self.of(T::Nodes, d - 1); let n = self.fresh();
                let body = self.with_var(&n, T::Node, |g| { let v = E::Var(n.clone()); let st = g.within(Foc::Node, |g| g.astep(1, d - 1)); b(Op::Slash, v, st) });
                E::For(vec![(n, l)], Box::new(body))
            }
            12 => { let l = self.of(T::Nodes, d - 1); let r = self.within(Foc::Node, |g| g.of(T::Nodes, d - 1)); b(Op::Bang, l, r) }
            _ => self.wrap(T::Nodes, d),
        }
    }
    pub fn node1(&mut self, d: usize) -> E {
        if self.ch(1, 3) { if let Some(v) = self.var_of(&[T::Node]) { return v; } }
        if self.foc == Foc::Node && (d == 0 || self.ch(1, 4)) { return match self.r.below(4) { 0 => call("root", vec![]), _ => E::Ctx }; }
        let dd = d.saturating_sub(1);
        let n = if d == 0 { self.node_source() } else { self.nodes(dd) };
        let k = int(self.r.range(1, 3));
        match self.r.below(4) { 0 => call("head", vec![n]), 1 => filter(E::Seq(vec![n]), call("last", vec![])), _ => filter(E::Seq(vec![n]), k) }
    }

    // ---- sequences
    /// As many integers as around a power of two, in some order.
    pub fn long(&mut self) -> E {
        let n = *self.r.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024]);
        let e = b(Op::To, int(1), int(n));
        match self.r.below(6) {
            0 => call("reverse", vec![e]),
            1 => { let x = self.plain(0); E::Seq(vec![x, e]) }
            2 => { let x = self.plain(0); E::Seq(vec![e, x]) }
            3 => { let k = int(self.r.range(2, 7)); b(Op::Bang, e, b(Op::Mod, E::Ctx, k)) }
            _ => E::Seq(vec![e]),
        }
    }
    pub fn ints(&mut self, d: usize) -> E {
        if d == 0 {
            let n = self.r.many(4);
            let mut v = vec![];
            for _ in 0..n { v.push(self.int(0)); }
            return if v.is_empty() { E::Empty } else { E::Seq(v) };
        }
        match self.r.below(8) {
            0 | 1 => { let l = int(self.r.range(-2, 4)); let r = if self.ch(1, 2) { { let h = if self.ch(1, 20) { 90 } else { 7 }; int(self.r.range(-2, h)) } } else { let n = self.of(T::Nodes, 0); call("count", vec![n]) }; b(Op::To, l, r) }
            2 => { let n = self.r.many(4); let mut v = vec![]; for i in 0..n { let d = if i > 5 { 1 } else { d }; v.push(self.of(T::Int, d - 1)); } E::Seq2(v) }
            3 => { let x = self.of(T::Ints, d - 1); let p = self.within(Foc::Int, |g| { if g.ch(1, 2) { g.of(T::Int, d - 1) } else { g.of(T::Bool, d - 1) } }); filter(E::Seq(vec![x]), p) }
            4 => { let x = self.of(T::Ints, d - 1); let n = self.fresh(); let y = self.with_var(&n, T::Int, |g| g.of(T::Int, d - 1)); E::For(vec![(n, x)], Box::new(y)) }
            5 => { let x = self.of(T::Ints, d - 1); let y = self.within(Foc::Int, |g| g.of(T::Int, d - 1)); b(Op::Bang, x, y) }
            6 => { let x = self.of(T::Ints, d - 1); call(*self.r.pick(&["reverse", "tail", "head"]), vec![x]) }
            _ => self.ints(0),
        }
    }
    pub fn strs(&mut self, d: usize) -> E {
        if d == 0 || self.ch(1, 3) { let n = self.r.many(4); let mut v = vec![]; for _ in 0..n { v.push(self.str_lit()); } return E::Seq2(v); }
        match self.r.below(4) {
            0 => { let n = self.of(T::Nodes, d - 1); b(Op::Bang, n, call("string", vec![])) }
            1 => { let n = self.of(T::Nodes, d - 1); b(Op::Slash, n, call("name", vec![])) }
            2 => { let x = self.of(T::Strs, d - 1); let y = self.within(Foc::Str, |g| g.of(T::Str, d - 1)); b(Op::Bang, x, y) }
            _ => { let x = self.of(T::Str, d - 1); let y = self.of(T::Str, d - 1); E::Seq(vec![x, y]) }
        }
    }
    pub fn seq(&mut self, d: usize) -> E {
        if self.ch(1, 6) { if let Some(v) = self.var_of(&[T::Seq, T::Ints, T::Strs, T::Nodes]) { return v; } }
        if d == 0 {
            return match self.r.below(5) { 0 => E::Empty, 1 => self.ints(0), 2 => self.strs(0), 3 => self.path(0), _ => { let x = self.num_lit(); let y = self.str_lit(); E::Seq(vec![x, y]) } };
        }
        match self.r.below(14) {
            0 | 1 => { let n = 1 + self.r.many(4); let mut v = vec![]; for i in 0..n { let d = if i > 5 { 1 } else { d }; v.push(self.plain(d - 1)); } E::Seq(v) }
            2 => self.ints(d), 3 => self.strs(d), 4 => self.nodes(d),
            5 => {
                let k = 1 + self.r.few(2);
                let mut bs = vec![];
                let base = self.vars.len();
                for _ in 0..k { let vt = *self.r.pick(&[T::Ints, T::Nodes, T::Strs]); let x = self.of(vt, d - 1); let n = self.fresh(); bs.push((n.clone(), x)); self.vars.push((n, match vt { T::Ints => T::Int, T::Nodes => T::Node, _ => T::Str })); }
                let y = self.plain(d - 1);
                self.vars.truncate(base);
                E::For(bs, Box::new(y))
            }
            6 => { let x = self.of(T::Seq, d - 1); call(*self.r.pick(&["reverse", "tail", "head", "data"]), vec![x]) }
            7 => { let x = self.of(T::Seq, d - 1); let k = self.of(T::Int, 0); let y = self.of(T::Seq, d - 1); call("insert-before", vec![x, k, y]) }
            8 => { let x = self.of(T::Seq, d - 1); let k = self.of(T::Int, 0); call("remove", vec![x, k]) }
            9 => { let x = self.of(T::Seq, d - 1); let k = self.of(T::Num, 0); let mut v = vec![x, k]; if self.ch(1, 2) { v.push(self.of(T::Num, 0)); } call("subsequence", v) }
            10 => { let x = self.of(T::Seq, d - 1); let p = self.within(Foc::Mixed, |g| if g.ch(1, 2) { g.of(T::Int, 0) } else { g.of(T::Bool, d - 1) }); filter(E::Seq(vec![x]), p) }
            11 => { let x = self.arr(d - 1); E::Lookup(Box::new(x), Key::Star) }
            12 => { let x = self.of(T::Seq, d - 1); let f = self.fun1(d - 1); call("for-each", vec![x, f]) }
            _ => self.wrap(T::Seq, d),
        }
    }
    /// A function of one argument, taking anything.
    pub fn fun1(&mut self, d: usize) -> E {
        match self.r.below(9) {
            8 => if self.ch(1, 2) { self.map(d) } else { self.arr(d) },
            0 | 4 => E::FRef(self.r.s(&["string", "count", "exists", "empty", "boolean", "data", "not"]), 1),
            1 | 5 => { let x = self.strv(0); E::Call("concat".into(), if self.ch(1, 2) { vec![None, Some(x)] } else { vec![Some(x), None] }) }
            _ => { let n = self.fresh(); let body = self.within(Foc::None, |g| g.with_var(&n, T::Seq, |g| g.plain(d))); E::Inline(vec![(n, None)], None, Box::new(body)) }
        }
    }

    // ---- maps and arrays
    pub fn key(&mut self, i: usize) -> E {
        match self.r.below(5) { 0 => int(i as i64 + 1), 1 => s(&format!("k{}", i)), 2 => E::Dec(format!("{}.5", i)), 3 => { let k = ["a", "b", "c", "d-e", "日", "f"][i % 6]; if i < 6 { s(k) } else { s(&format!("{}{}", k, i)) } } _ => int(100 + i as i64) }
    }
    pub fn map(&mut self, d: usize) -> E {
        if self.ch(1, 4) { if let Some(v) = self.var_of(&[T::Map]) { return v; } }
        let n = self.r.many(5);
        let mut v = vec![];
        for i in 0..n {
            let k = self.key(i);
            let d = if i > 5 { 0 } else { d };
            let x = if d == 0 { self.num_lit() } else { match self.r.below(6) { 0 => self.map(d - 1), 1 => self.arr(d - 1), _ => self.plain(d - 1) } };
            v.push((k, x));
        }
        E::Map(v)
    }
    pub fn arr(&mut self, d: usize) -> E {
        if self.ch(1, 4) { if let Some(v) = self.var_of(&[T::Arr]) { return v; } }
        if self.ch(1, 4) { let x = if d == 0 { self.ints(0) } else { self.seq(d - 1) }; return E::ArrC(if self.ch(1, 8) { None } else { Some(Box::new(x)) }); }
        let n = self.r.many(5);
        let mut v = vec![];
        for i in 0..n { let d = if i > 5 { 0 } else { d }; v.push(if d == 0 { self.num_lit() } else { match self.r.below(6) { 0 => self.map(d - 1), 1 => self.arr(d - 1), _ => self.plain(d - 1) } }); }
        E::ArrS(v)
    }
}

impl E {
    /// A sequence constructor, or () if there is nothing in it.
    #[allow(non_snake_case)]
    pub fn Seq2(v: Vec<E>) -> E { if v.is_empty() { E::Empty } else { E::Seq(v) } }
}

/// The direct sub-expressions.
pub fn children(e: &E) -> Vec<&E> {
    let mut v: Vec<&E> = vec![];
    match e {
        E::Seq(x) | E::ArrS(x) => v.extend(x.iter()),
        E::For(bs, r) | E::Let(bs, r) | E::Quant(_, bs, r) => { v.extend(bs.iter().map(|(_, x)| x)); v.push(r); }
        E::If(a, x, y) => { v.push(a); v.push(x); v.push(y); }
        E::Bin(_, l, r) => { v.push(l); v.push(r); }
        E::Inst(x, _) | E::Castable(x, _, _) | E::Cast(x, _, _) | E::Neg(x) | E::Plus(x) => v.push(x),
        E::Arrow(x, c, a) => { v.push(x); if let Callee::Expr(y) = &**c { v.push(y); } v.extend(a.iter().filter_map(|y| y.as_ref())); }
        E::Step(_, _, ps) => v.extend(ps.iter()),
        E::Filter(x, p) => { v.push(x); v.push(p); }
        E::Dyn(x, a) => { v.push(x); v.extend(a.iter().filter_map(|y| y.as_ref())); }
        E::Lookup(x, k) => { v.push(x); if let Key::Expr(y) = k { v.push(y); } }
        E::ULookup(k) => if let Key::Expr(y) = k { v.push(y); },
        E::Call(_, a) => v.extend(a.iter().filter_map(|y| y.as_ref())),
        E::Inline(_, _, x) => v.push(x),
        E::Map(m) => for (k, x) in m { v.push(k); v.push(x); },
        E::ArrC(Some(x)) => v.push(x),
        _ => {}
    }
    v
}
pub fn size(e: &E) -> usize { 1 + children(e).iter().map(|c| size(c)).sum::<usize>() }

/// Names the feature at the root of an expression, for the event counters.
pub fn feature(e: &E) -> Option<String> {
    Some(match e {
        E::Bin(op, _, _) => format!("op {}", optext(*op)),
        E::Step(a, _, ps) => format!("axis {}{}", a.name(), if ps.is_empty() { "" } else { " with predicate" }),
        E::Call(n, a) => if a.iter().any(|x| x.is_none()) { format!("partial {}", n) } else { format!("fn {}", n) },
        E::FRef(..) => "named function reference".into(),
        E::Inline(..) => "inline function".into(),
        E::Dyn(..) => "dynamic call".into(),
        E::Arrow(..) => "arrow".into(),
        E::For(..) => "for".into(), E::Let(..) => "let".into(), E::If(..) => "if".into(),
        E::Quant(true, ..) => "every".into(), E::Quant(false, ..) => "some".into(),
        E::Inst(..) => "instance of".into(), E::Castable(..) => "castable as".into(), E::Cast(..) => "cast as".into(),
        E::Filter(..) => "filter".into(), E::Lookup(..) => "lookup".into(), E::ULookup(..) => "unary lookup".into(),
        E::Map(_) => "map constructor".into(), E::ArrS(_) | E::ArrC(_) => "array constructor".into(),
        E::Neg(_) => "unary minus".into(), E::Plus(_) => "unary plus".into(),
        _ => return None,
    })
}
pub fn features(e: &E, f: &mut dyn FnMut(String)) {
    if let Some(x) = feature(e) { f(x); }
    for c in children(e) { features(c, f); }
}
