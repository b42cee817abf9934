//! Reference evaluator: the specified meaning of an expression, over a
//! snapshot of the tree. Independent of the code under test.
use crate::ast::*;
use crate::model::{Doc, Kind};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { Node(usize), Str(String), Int(i64), Dec(f64), Dbl(f64), Bool(bool), Map(Rc<Vec<(V, S)>>), Arr(Rc<Vec<S>>), Fun(Rc<F>) }
pub type S = Vec<V>;

#[derive(Debug)]
pub enum F {
    Inline(Vec<(String, Option<Ty>)>, Option<Ty>, E, Env),
    Named(String, usize),
    /// with the arguments that are fixed
    Partial(String, Vec<Option<S>>),
}

/// Variable bindings, innermost last.
pub type Env = Vec<(String, S)>;

#[derive(Debug)]
pub enum Er {
    /// the expression must fail
    Error(String),
    /// outside what the property specifies: no verdict
    Unsupported(&'static str),
}
pub type Res = Result<S, Er>;

fn err<T>(s: &str) -> Result<T, Er> { Err(Er::Error(s.to_string())) }
fn uns<T>(s: &'static str) -> Result<T, Er> { Err(Er::Unsupported(s)) }

#[derive(Clone)]
pub struct Focus { pub item: Option<V>, pub pos: usize, pub last: usize }

pub struct Ref<'a> { pub d: &'a Doc, pub fuel: usize, pub max_len: usize, deep: usize }

impl<'a> Ref<'a> {
    pub fn new(d: &'a Doc) -> Ref<'a> { Ref { d, fuel: 60_000, max_len: 3_000, deep: d.depth() } }

    pub fn top(&mut self, e: &E, ctx: usize) -> Res {
        let f = Focus { item: Some(V::Node(ctx)), pos: 0, last: 0 };
        self.ev(e, &f, &vec![])
    }

    fn tick(&mut self) -> Result<(), Er> {
        if self.fuel == 0 { return uns("too long"); }
        self.fuel -= 1;
        Ok(())
    }
    /// What a list of nodes costs: sorting it looks at their ancestors.
    fn nodes(&mut self, n: usize) -> Result<(), Er> {
        let c = n * self.deep / 30;
        if self.fuel < c { self.fuel = 0; return uns("too long"); }
        self.fuel -= c;
        Ok(())
    }
    fn len_ok(&self, s: &S) -> Result<(), Er> { if s.len() > self.max_len { uns("too large") } else { Ok(()) } }

    pub fn ev(&mut self, e: &E, f: &Focus, env: &Env) -> Res {
        self.tick()?;
        Ok(match e {
            E::Int(i) => vec![V::Int(*i)],
            E::Dec(t) => vec![V::Dec(num(t))],
            E::Dbl(t) => vec![V::Dbl(num(t))],
            E::Str(v) => vec![V::Str(v.clone())],
            E::Empty => vec![],
            E::Seq(v) => { let mut o = vec![]; for x in v { o.extend(self.ev(x, f, env)?); } self.len_ok(&o)?; o }
            E::Ctx => vec![self.ctx(f)?],
            E::Root => match self.ctx(f)? { V::Node(_) => vec![V::Node(0)], _ => return err("context item is not a node") },
            E::DotDot => return self.ev(&step(Axis::Parent, Test::Node), f, env),
            E::Var(n) => match env.iter().rev().find(|(m, _)| m == n) { Some((_, v)) => v.clone(), None => return err("unbound variable") },
            E::For(bs, r) => { let mut o = vec![]; self.each(bs, 0, f, env, &mut |me, en| { let v = me.ev(r, f, en)?; o.extend(v); me.len_ok(&o)?; Ok(true) })?; o }
            E::Let(bs, r) => {
                let mut en = env.clone();
                for (n, x) in bs { let v = self.ev(x, f, &en)?; en.push((n.clone(), v)); }
                self.ev(r, f, &en)?
            }
            E::Quant(every, bs, c) => {
                let mut ans = *every;
                let mut decided = false;
                let mut late: Option<Er> = None;
                let r = self.each(bs, 0, f, env, &mut |me, en| {
                    let b = me.ev(c, f, en).and_then(|v| ebv(&v));
                    match b {
                        Ok(b) => { if b != *every { ans = b; decided = true; } }
                        Err(x) => { if decided { return uns("error after the answer is settled"); } if late.is_none() { late = Some(x); } }
                    }
                    Ok(true)
                });
                if let Err(x) = r { if decided { return uns("error after the answer is settled"); } return Err(x); }
                if let Some(x) = late { if decided { return uns("error beside a settling item"); } return Err(x); }
                vec![V::Bool(ans)]
            }
            E::If(c, t, x) => { if ebv(&self.ev(c, f, env)?)? { self.ev(t, f, env)? } else { self.ev(x, f, env)? } }
            E::Bin(op, l, r) => return self.bin(*op, l, r, f, env),
            E::Inst(x, t) => { let v = self.ev(x, f, env)?; vec![V::Bool(self.matches(&v, t)?)] }
            E::Castable(x, a, opt) => {
                let v = self.ev(x, f, env)?;
                vec![V::Bool(match self.cast(&v, *a, *opt) { Ok(_) => true, Err(Er::Error(_)) => false, Err(u) => return Err(u) })]
            }
            E::Cast(x, a, opt) => { let v = self.ev(x, f, env)?; self.cast(&v, *a, *opt)? }
            E::Arrow(x, c, a) => {
                let mut args = vec![self.ev(x, f, env)?];
                match &**c {
                    Callee::Name(n) => {
                        if a.iter().any(|y| y.is_none()) { let args = args.into_iter().map(Some).collect(); return self.partial(n, args, a, f, env); }
                        for y in a { args.push(self.ev(y.as_ref().unwrap(), f, env)?); }
                        self.call(n, args, f)?
                    }
                    Callee::Var(_) | Callee::Expr(_) => {
                        let fv = match &**c { Callee::Var(n) => self.ev(&E::Var(n.clone()), f, env)?, Callee::Expr(y) => self.ev(y, f, env)?, _ => unreachable!() };
                        for y in a { match y { Some(y) => args.push(self.ev(y, f, env)?), None => return uns("partial application of a value") } }
                        self.apply(&fv, args, f)?
                    }
                }
            }
            E::Neg(x) => { let v = self.ev(x, f, env)?; return unary(&v, true); }
            E::Plus(x) => { let v = self.ev(x, f, env)?; return unary(&v, false); }
            E::Step(a, t, ps) => {
                let n = match self.ctx(f)? { V::Node(n) => n, _ => return err("axis step on an atomic item") };
                let mut ns: Vec<usize> = self.axis(n, *a).into_iter().filter(|m| self.test(*m, *a, t)).collect();
                for p in ps {
                    let items: S = ns.iter().map(|n| V::Node(*n)).collect();
                    let keep = self.pred(&items, p, env)?;
                    ns = keep.into_iter().map(|v| match v { V::Node(n) => n, _ => unreachable!() }).collect();
                }
                if a.reverse() { ns.reverse(); }
                self.nodes(ns.len())?;
                ns.into_iter().map(V::Node).collect()
            }
            E::Filter(x, p) => { let v = self.ev(x, f, env)?; self.pred(&v, p, env)? }
            E::Dyn(x, a) => {
                let fv = self.ev(x, f, env)?;
                let mut args = vec![];
                for y in a { match y { Some(y) => args.push(self.ev(y, f, env)?), None => return uns("partial application of a value") } }
                self.apply(&fv, args, f)?
            }
            E::Lookup(x, k) => {
                let v = self.ev(x, f, env)?;
                let mut o = vec![];
                for it in &v { o.extend(self.lookup(it, k, f, env)?); }
                self.len_ok(&o)?;
                o
            }
            E::ULookup(k) => { let it = self.ctx(f)?; self.lookup(&it, k, f, env)? }
            E::Call(n, a) => {
                if a.iter().any(|x| x.is_none()) {
                    if !known_function(n, a.len()) { return err("unknown function"); }
                    return self.partial(n, vec![], a, f, env);
                }
                let mut args = vec![];
                for y in a { args.push(self.ev(y.as_ref().unwrap(), f, env)?); }
                self.call(n, args, f)?
            }
            E::FRef(n, k) => {
                if !known_function(n, *k) { return err("unknown function"); }
                vec![V::Fun(Rc::new(F::Named(n.clone(), *k)))]
            }
            E::Inline(ps, ret, b) => vec![V::Fun(Rc::new(F::Inline(ps.clone(), ret.clone(), (**b).clone(), env.clone())))],
            E::Map(v) => {
                let mut m: Vec<(V, S)> = vec![];
                for (k, x) in v {
                    let k = self.ev(k, f, env)?;
                    let k = self.atom1(&k)?;
                    let x = self.ev(x, f, env)?;
                    if mget(&m, &k)?.is_some() { return err("duplicate keys"); }
                    m.push((k, x));
                }
                vec![V::Map(Rc::new(m))]
            }
            E::ArrS(v) => { let mut m = vec![]; for x in v { m.push(self.ev(x, f, env)?); } vec![V::Arr(Rc::new(m))] }
            E::ArrC(x) => { let v = match x { Some(x) => self.ev(x, f, env)?, None => vec![] }; vec![V::Arr(Rc::new(v.into_iter().map(|i| vec![i]).collect()))] }
        })
    }

    fn ctx(&self, f: &Focus) -> Result<V, Er> { match &f.item { Some(v) => Ok(v.clone()), None => uns("context item inside a function body") } }

    fn each(&mut self, bs: &[(String, E)], i: usize, f: &Focus, env: &Env, go: &mut dyn FnMut(&mut Self, &Env) -> Result<bool, Er>) -> Result<(), Er> {
        if i == bs.len() { go(self, env)?; return Ok(()); }
        let v = self.ev(&bs[i].1, f, env)?;
        for it in v {
            self.tick()?;
            let mut en = env.clone();
            en.push((bs[i].0.clone(), vec![it]));
            self.each(bs, i + 1, f, &en, go)?;
        }
        Ok(())
    }

    fn pred(&mut self, items: &S, p: &E, env: &Env) -> Res {
        let mut o = vec![];
        for (i, it) in items.iter().enumerate() {
            let f = Focus { item: Some(it.clone()), pos: i + 1, last: items.len() };
            let v = self.ev(p, &f, env)?;
            let keep = match v.as_slice() {
                [V::Int(n)] => *n == (i + 1) as i64,
                [V::Dec(n)] | [V::Dbl(n)] => *n == (i + 1) as f64,
                _ => ebv(&v)?,
            };
            if keep { o.push(it.clone()); }
        }
        Ok(o)
    }

    // -----------------------------------------------------------------
    // nodes

    pub fn sv(&self, n: usize) -> String { self.d.string_value(n) }

    /// The nodes of an axis in axis direction.
    pub fn axis(&self, n: usize, a: Axis) -> Vec<usize> {
        let d = &self.d.nodes;
        let tree = |i: usize| d[i].kind != Kind::Attr;
        let anc = |mut i: usize| { let mut v = vec![]; while let Some(p) = d[i].parent { v.push(p); i = p; } v };
        match a {
            Axis::Child => d[n].kids.clone(),
            Axis::Attribute => d[n].attrs.clone(),
            Axis::SelfA => vec![n],
            Axis::Parent => d[n].parent.into_iter().collect(),
            Axis::Ancestor => anc(n),
            Axis::AncestorOrSelf => { let mut v = vec![n]; v.extend(anc(n)); v }
            Axis::Descendant => (n + 1..d[n].end).filter(|i| tree(*i)).collect(),
            Axis::DescendantOrSelf => (n..d[n].end).filter(|i| *i == n || tree(*i)).collect(),
            Axis::Following => {
                // after the subtree of n; descendants are excluded. For an attribute that
                // includes the content of its element, which comes after it.
                (d[n].end..d.len()).filter(|i| tree(*i)).collect()
            }
            Axis::Preceding => {
                let up = anc(n);
                (0..n).rev().filter(|i| tree(*i) && !up.contains(i)).collect()
            }
            Axis::FollowingSibling | Axis::PrecedingSibling => {
                if d[n].kind == Kind::Attr { return vec![]; }
                match d[n].parent {
                    None => vec![],
                    Some(p) => {
                        let k = d[p].kids.iter().position(|x| *x == n).unwrap();
                        if a == Axis::FollowingSibling { d[p].kids[k + 1..].to_vec() } else { d[p].kids[..k].iter().rev().cloned().collect() }
                    }
                }
            }
        }
    }

    /// element(nm): an element which nobody validated has the type xs:untyped.
    fn elem_test(&self, n: usize, nm: &Option<String>) -> bool {
        let x = &self.d.nodes[n];
        let (name, ty) = kind_arg(nm, "xs:anyType?");
        x.kind == Kind::Elem && (name == "*" || name == x.name) && ["xs:untyped", "xs:anyType"].contains(&ty.trim_end_matches('?'))
            && (ty.ends_with('?') || self.d.attr(n, "xsi:nil") != Some("true"))
    }
    /// attribute(nm): the type of such an attribute is xs:untypedAtomic.
    fn attr_test(&self, n: usize, nm: &Option<String>) -> bool {
        let x = &self.d.nodes[n];
        let (name, ty) = kind_arg(nm, "xs:anyType");
        x.kind == Kind::Attr && (name == "*" || name == x.name) && ["xs:untypedAtomic", "xs:anyAtomicType", "xs:anySimpleType", "xs:anyType"].contains(&ty)
    }

    pub fn test(&self, n: usize, a: Axis, t: &Test) -> bool {
        let x = &self.d.nodes[n];
        let principal = if a == Axis::Attribute { x.kind == Kind::Attr } else { x.kind == Kind::Elem };
        match t {
            Test::Name(s) => principal && x.name == *s,
            Test::Star => principal,
            Test::PrefixStar(p) => principal && x.name.starts_with(&format!("{}:", p)),
            Test::StarLocal(l) => principal && match x.name.find(':') { Some(i) => x.name[i + 1..] == **l, None => x.name == *l },
            Test::Node => true,
            Test::Text => x.kind == Kind::Text,
            Test::Comment => x.kind == Kind::Comment,
            Test::Pi(nm) => x.kind == Kind::Pi && nm.as_ref().map(|s| *s == x.name).unwrap_or(true),
            Test::Element(nm) => self.elem_test(n, nm),
            Test::Attribute(nm) => self.attr_test(n, nm),
        }
    }

    // -----------------------------------------------------------------
    // operators

    fn bin(&mut self, op: Op, l: &E, r: &E, f: &Focus, env: &Env) -> Res {
        match op {
            Op::And | Op::Or => {
                let a = ebv(&self.ev(l, f, env)?)?;
                if a == (op == Op::Or) { return Ok(vec![V::Bool(a)]); }
                let b = ebv(&self.ev(r, f, env)?)?;
                return Ok(vec![V::Bool(b)]);
            }
            Op::Slash | Op::DSlash => {
                let mut left = self.ev(l, f, env)?;
                if op == Op::DSlash { left = self.map_path(&left, &step(Axis::DescendantOrSelf, Test::Node), env)?; }
                return self.map_path(&left, r, env);
            }
            Op::Bang => {
                let left = self.ev(l, f, env)?;
                let mut o = vec![];
                for (i, it) in left.iter().enumerate() {
                    let g = Focus { item: Some(it.clone()), pos: i + 1, last: left.len() };
                    o.extend(self.ev(r, &g, env)?);
                    self.len_ok(&o)?;
                }
                return Ok(o);
            }
            _ => {}
        }
        let a = self.ev(l, f, env)?;
        let b = self.ev(r, f, env)?;
        match op {
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Idiv | Op::Mod => {
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                if a.len() > 1 || b.len() > 1 { return err("arithmetic on a longer sequence"); }
                arith(op, &a[0], &b[0]).map(|v| vec![v])
            }
            Op::Concat => {
                let x = self.concat_arg(&a)?;
                let y = self.concat_arg(&b)?;
                Ok(vec![V::Str(x + &y)])
            }
            Op::To => {
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                match (a.as_slice(), b.as_slice()) {
                    ([V::Int(x)], [V::Int(y)]) => {
                        if *y >= *x && (*y as i128 - *x as i128) > self.max_len as i128 { return uns("too large"); }
                        Ok((*x..=*y).map(V::Int).collect())
                    }
                    _ => err("'to' needs integers"),
                }
            }
            Op::Union | Op::Intersect | Op::Except => {
                let x = nodes(&a)?;
                let y = nodes(&b)?;
                let mut o: Vec<usize> = match op {
                    Op::Union => x.iter().chain(y.iter()).cloned().collect(),
                    Op::Intersect => x.iter().filter(|n| y.contains(n)).cloned().collect(),
                    _ => x.iter().filter(|n| !y.contains(n)).cloned().collect(),
                };
                o.sort(); o.dedup();
                Ok(o.into_iter().map(V::Node).collect())
            }
            Op::Is | Op::Before | Op::After => {
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                match (a.as_slice(), b.as_slice()) {
                    ([V::Node(x)], [V::Node(y)]) => Ok(vec![V::Bool(match op { Op::Is => x == y, Op::Before => x < y, _ => x > y })]),
                    _ => err("node comparison needs nodes"),
                }
            }
            Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => {
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                if a.len() > 1 || b.len() > 1 { return err("value comparison of a longer sequence"); }
                let x = self.atomize1(&a[0])?;
                let y = self.atomize1(&b[0])?;
                Ok(vec![V::Bool(vcmp(op, &x, &y)?)])
            }
            Op::GEq | Op::GNe | Op::GLt | Op::GLe | Op::GGt | Op::GGe => {
                let vop = match op { Op::GEq => Op::Eq, Op::GNe => Op::Ne, Op::GLt => Op::Lt, Op::GLe => Op::Le, Op::GGt => Op::Gt, _ => Op::Ge };
                let mut ans = false;
                let mut odd = false;
                for x in &a { for y in &b {
                    let x = self.atomize1(x);
                    let y = self.atomize1(y);
                    match (x, y) {
                        (Ok(x), Ok(y)) => match vcmp(vop, &x, &y) { Ok(true) => ans = true, Ok(false) => {} Err(Er::Unsupported(u)) => return uns(u), Err(_) => odd = true },
                        _ => odd = true,
                    }
                } }
                if odd && !ans { /* pairs that cannot be compared satisfy nothing */ }
                Ok(vec![V::Bool(ans)])
            }
            _ => unreachable!(),
        }
    }

    fn map_path(&mut self, left: &S, r: &E, env: &Env) -> Res {
        if left.iter().any(|v| !matches!(v, V::Node(_))) { return err("left side of '/' is not nodes"); }
        let mut o: S = vec![];
        for (i, it) in left.iter().enumerate() {
            let g = Focus { item: Some(it.clone()), pos: i + 1, last: left.len() };
            o.extend(self.ev(r, &g, env)?);
            if o.len() > 4 * self.max_len { return uns("too large"); }
        }
        let k = o.iter().filter(|v| matches!(v, V::Node(_))).count();
        if k == o.len() {
            let mut ns: Vec<usize> = o.iter().map(|v| match v { V::Node(n) => *n, _ => 0 }).collect();
            ns.sort(); ns.dedup();
            return Ok(ns.into_iter().map(V::Node).collect());
        }
        if k > 0 { return err("nodes and atomic values mixed in a path"); }
        Ok(o)
    }

    fn concat_arg(&self, a: &S) -> Result<String, Er> {
        match a.len() { 0 => Ok(String::new()), 1 => self.as_string(&a[0]), _ => err("sequence where one item is needed") }
    }

    pub fn atomize1(&self, v: &V) -> Result<V, Er> {
        match v {
            V::Node(n) => Ok(V::Str(self.sv(*n))),
            V::Map(_) | V::Fun(_) => err("a function has no atomic value"),
            V::Arr(_) => uns("atomized array"),
            x => Ok(x.clone()),
        }
    }
    fn atom1(&self, s: &S) -> Result<V, Er> {
        if s.len() != 1 { return err("one atomic value is needed"); }
        match &s[0] {
            V::Map(_) | V::Arr(_) | V::Fun(_) => err("a function as a key"),
            V::Node(n) => Ok(V::Str(self.d.string_value(*n))),
            x => Ok(x.clone()),
        }
    }
    pub fn as_string(&self, v: &V) -> Result<String, Er> {
        match v { V::Map(_) | V::Arr(_) | V::Fun(_) => err("a function has no string value"), x => Ok(self.str_of(x)) }
    }
    fn str_of(&self, v: &V) -> String {
        match v {
            V::Node(n) => self.sv(*n), V::Str(s) => s.clone(), V::Int(i) => i.to_string(), V::Bool(b) => b.to_string(),
            V::Dec(d) => plain(*d), V::Dbl(d) => if d.is_nan() { "NaN".into() } else if d.is_infinite() { if *d > 0.0 { "+Infinity".into() } else { "-Infinity".into() } } else { plain(*d) },
            _ => String::from("?"),
        }
    }
    pub fn as_double(&self, v: &V) -> Result<f64, Er> {
        Ok(match v {
            V::Node(n) => str_double(&self.sv(*n)), V::Str(s) => str_double(s), V::Int(i) => *i as f64, V::Dec(d) | V::Dbl(d) => *d,
            V::Bool(b) => if *b { 1.0 } else { 0.0 },
            _ => return err("a function has no numeric value"),
        })
    }

    fn cast(&self, v: &S, a: Atom, opt: bool) -> Res {
        if v.is_empty() { return if opt { Ok(vec![]) } else { err("cast of an empty sequence") }; }
        if v.len() > 1 { return err("cast of a longer sequence"); }
        let x = match &v[0] { V::Arr(_) => return uns("cast of an array"), V::Map(_) | V::Fun(_) => return err("cast of a function"), V::Node(n) => V::Str(self.sv(*n)), x => x.clone() };
        Ok(vec![match a {
            Atom::Str => V::Str(self.str_of(&x)),
            Atom::Double => match &x { V::Str(s) => match lexical_double(s, true) { Some(d) => V::Dbl(d), None => return err("not a number") }, x => V::Dbl(self.as_double(x)?) },
            Atom::Decimal => { let d = match &x { V::Str(s) => lexical_double(s, false).unwrap_or(f64::NAN), x => self.as_double(x)? }; if d.is_nan() || d.is_infinite() { return err("no decimal value"); } V::Dec(d + 0.0) }
            Atom::Integer => match x {
                V::Int(i) => V::Int(i),
                V::Bool(b) => V::Int(b as i64),
                V::Dec(d) | V::Dbl(d) => {
                    let t = d.trunc();
                    if !(t >= -9223372036854775808.0 && t < 9223372036854775808.0) { return err("not in the integer range"); }
                    V::Int(t as i64)
                }
                V::Str(s) => match xml_trim(&s).parse::<i64>() { Ok(i) => V::Int(i), Err(_) => return err("not an integer") },
                _ => unreachable!(),
            },
            Atom::Boolean => match x {
                V::Bool(b) => V::Bool(b),
                V::Int(i) => V::Bool(i != 0),
                V::Dec(d) | V::Dbl(d) => V::Bool(!(d == 0.0 || d.is_nan())),
                V::Str(s) => match xml_trim(&s) { "true" | "1" => V::Bool(true), "false" | "0" => V::Bool(false), _ => return err("not a boolean") },
                _ => unreachable!(),
            },
        }])
    }

    pub fn matches(&self, v: &S, t: &Ty) -> Result<bool, Er> {
        let (it, occ) = match t { Ty::EmptySeq => return Ok(v.is_empty()), Ty::Of(i, o) => (i, o) };
        let n = v.len();
        let ok = match occ { Occ::One => n == 1, Occ::Opt => n <= 1, Occ::Star => true, Occ::Plus => n >= 1 };
        if !ok { return Ok(false); }
        for x in v { if !self.item_matches(x, it)? { return Ok(false); } }
        Ok(true)
    }
    fn item_matches(&self, x: &V, it: &Item) -> Result<bool, Er> {
        Ok(match it {
            Item::Any => true,
            Item::Integer => matches!(x, V::Int(_)),
            Item::Decimal => matches!(x, V::Int(_) | V::Dec(_)),
            Item::Double => matches!(x, V::Dbl(_)),
            Item::Numeric => matches!(x, V::Int(_) | V::Dec(_) | V::Dbl(_)),
            Item::Str => matches!(x, V::Str(_)),
            Item::Boolean => matches!(x, V::Bool(_)),
            Item::AnyAtomic => matches!(x, V::Int(_) | V::Dec(_) | V::Dbl(_) | V::Str(_) | V::Bool(_)),
            Item::MapAny => matches!(x, V::Map(_)),
            Item::ArrayAny => matches!(x, V::Arr(_)),
            Item::FunAny => matches!(x, V::Map(_) | V::Arr(_) | V::Fun(_)),
            Item::MapOf(k, t) => match x {
                V::Map(m) => { for (kk, vv) in m.iter() { if !self.item_matches(kk, k)? || !self.matches(vv, t)? { return Ok(false); } } true }
                _ => false,
            },
            Item::ArrayOf(t) => match x { V::Arr(m) => { for vv in m.iter() { if !self.matches(vv, t)? { return Ok(false); } } true } _ => false },
            Item::FunOf(args, ret) => match x {
                V::Fun(fun) => match &**fun {
                    F::Inline(ps, r, _, _) => {
                        let any = Ty::Of(Item::Any, Occ::Star);
                        let params: Vec<&Ty> = ps.iter().map(|p| p.1.as_ref().unwrap_or(&any)).collect();
                        return sig_matches(&params, r.as_ref().unwrap_or(&any), args, ret);
                    }
                    F::Named(n, k) => { let (ps, r) = signature(n, *k)?; return sig_matches(&ps.iter().collect::<Vec<_>>(), &r, args, ret); }
                    F::Partial(n, a) => {
                        let (ps, r) = signature(n, a.len())?;
                        let open: Vec<&Ty> = ps.iter().zip(a.iter()).filter(|x| x.1.is_none()).map(|x| x.0).collect();
                        return sig_matches(&open, &r, args, ret);
                    }
                },
                V::Map(_) | V::Arr(_) => return uns("map or array as a typed function"),
                _ => false,
            },
            _ => match x {
                V::Node(n) => {
                    let k = &self.d.nodes[*n];
                    match it {
                        Item::Node => true,
                        Item::Element(nm) => self.elem_test(*n, nm),
                        Item::Attribute(nm) => self.attr_test(*n, nm),
                        Item::Text => k.kind == Kind::Text,
                        Item::Comment => k.kind == Kind::Comment,
                        Item::Pi(nm) => k.kind == Kind::Pi && nm.as_ref().map(|s| *s == k.name).unwrap_or(true),
                        _ => unreachable!(),
                    }
                }
                _ => false,
            },
        })
    }

    // -----------------------------------------------------------------
    // functions

    fn lookup(&mut self, it: &V, k: &Key, f: &Focus, env: &Env) -> Res {
        match it {
            V::Map(m) => match k {
                Key::Star => Ok(m.iter().flat_map(|(_, v)| v.clone()).collect()),
                Key::Name(n) => Ok(mget(m, &V::Str(n.clone()))?.unwrap_or_default()),
                Key::Int(i) => Ok(mget(m, &V::Int(*i))?.unwrap_or_default()),
                Key::Expr(e) => {
                    let ks = self.ev(e, f, env)?;
                    let mut o = vec![];
                    for x in &ks { o.extend(mget(m, &self.key_of(x)?)?.unwrap_or_default()); }
                    Ok(o)
                }
            },
            V::Arr(a) => match k {
                Key::Star => Ok(a.iter().flatten().cloned().collect()),
                Key::Name(_) => uns("name lookup in an array"),
                Key::Int(i) => Ok(aget(a, *i).unwrap_or_default()),
                Key::Expr(e) => {
                    let ks = self.ev(e, f, env)?;
                    let mut o = vec![];
                    for x in &ks { match x { V::Int(i) => o.extend(aget(a, *i).unwrap_or_default()), _ => return uns("array index that is not an integer") } }
                    Ok(o)
                }
            },
            _ => err("lookup in something else than a map or array"),
        }
    }
    fn key_of(&self, x: &V) -> Result<V, Er> { match x { V::Map(_) | V::Arr(_) | V::Fun(_) => uns("function as a key"), V::Node(n) => Ok(V::Str(self.d.string_value(*n))), x => Ok(x.clone()) } }

    /// A call with open arguments: those given are evaluated here and now.
    fn partial(&mut self, n: &str, first: Vec<Option<S>>, rest: &[Option<E>], f: &Focus, env: &Env) -> Res {
        let mut all = first;
        for x in rest { all.push(match x { Some(e) => Some(self.ev(e, f, env)?), None => None }); }
        if !known_function(n, all.len()) { return err("unknown function"); }
        Ok(vec![V::Fun(Rc::new(F::Partial(n.to_string(), all)))])
    }

    pub fn apply(&mut self, fv: &S, args: Vec<S>, f: &Focus) -> Res {
        self.tick()?;
        if fv.len() != 1 { return err("not one function"); }
        match &fv[0] {
            V::Fun(fun) => match &**fun {
                F::Inline(ps, ret, body, env) => {
                    if ps.len() != args.len() { return err("wrong number of arguments"); }
                    let mut en = env.clone();
                    for ((n, t), a) in ps.iter().zip(args.into_iter()) {
                        if let Some(t) = t { if !self.matches(&a, t)? { return err("argument type"); } }
                        en.push((n.clone(), a));
                    }
                    let g = Focus { item: None, pos: 0, last: 0 };
                    let v = self.ev(body, &g, &en)?;
                    if let Some(t) = ret { if !self.matches(&v, t)? { return uns("declared result type does not match"); } }
                    Ok(v)
                }
                F::Named(n, k) => {
                    if *k != args.len() { return err("wrong number of arguments"); }
                    if context_dependent(n, *k) { return uns("context-dependent function value"); }
                    self.call(n, args, f)
                }
                F::Partial(n, a) => {
                    if a.iter().filter(|x| x.is_none()).count() != args.len() { return err("wrong number of arguments"); }
                    if context_dependent(n, a.len()) { return uns("context-dependent function value"); }
                    let mut it = args.into_iter();
                    let mut all = vec![];
                    for x in a { match x { None => all.push(it.next().unwrap()), Some(v) => all.push(v.clone()) } }
                    self.call(n, all, f)
                }
            },
            V::Map(m) => {
                if args.len() != 1 { return err("wrong number of arguments"); }
                if args[0].len() != 1 { return err("one key is needed"); }
                match mget(m, &self.key_of(&args[0][0])?)? { Some(v) => Ok(v), None => Ok(vec![]) }
            }
            V::Arr(a) => {
                if args.len() != 1 || args[0].len() != 1 { return err("wrong arguments"); }
                match &args[0][0] { V::Int(i) => match aget(a, *i) { Some(v) => Ok(v), None => err("index out of bounds") }, _ => uns("array index that is not an integer") }
            }
            _ => err("not a function"),
        }
    }

    fn node1(&self, a: &S) -> Result<Option<usize>, Er> {
        match a.as_slice() { [] => Ok(None), [V::Node(n)] => Ok(Some(*n)), _ => err("one node is needed") }
    }
    /// An xs:string? argument.
    fn str_opt(&self, a: &S) -> Result<String, Er> {
        match a.as_slice() { [] => Ok(String::new()), [V::Str(s)] => Ok(s.clone()), [V::Node(_)] => uns("node where a string is needed"), _ => err("a string is needed") }
    }
    fn num1(&self, a: &S) -> Result<f64, Er> {
        if a.len() != 1 { return err("one number is needed"); }
        match &a[0] { V::Int(_) | V::Dec(_) | V::Dbl(_) => self.as_double(&a[0]), V::Str(_) | V::Bool(_) | V::Node(_) => uns("number from another type"), _ => err("a number is needed") }
    }
    fn int1(&self, a: &S) -> Result<i64, Er> {
        match a.as_slice() { [V::Int(i)] => Ok(*i), _ => err("an integer is needed") }
    }

    pub fn call(&mut self, name: &str, a: Vec<S>, f: &Focus) -> Res {
        self.tick()?;
        if !known_function(name, a.len()) { return err("unknown function"); }
        let name = name.strip_prefix("fn:").unwrap_or(name);
        let ctx_arg = |me: &Self| -> Result<S, Er> { Ok(vec![me.ctx(f)?]) };
        let b1 = |b: bool| Ok(vec![V::Bool(b)]);
        let s1 = |s: String| Ok(vec![V::Str(s)]);
        match (name, a.len()) {
            ("position", 0) | ("last", 0) => {
                if f.item.is_none() || f.last == 0 { return uns("position at the outermost level"); }
                Ok(vec![V::Int(if name == "position" { f.pos } else { f.last } as i64)])
            }
            ("string", 0) | ("data", 0) | ("number", 0) | ("string-length", 0) | ("normalize-space", 0) | ("name", 0) | ("local-name", 0) | ("namespace-uri", 0) | ("root", 0) | ("nilled", 0) => {
                let c = ctx_arg(self)?;
                let c = if name == "string-length" || name == "normalize-space" {
                    match &c[0] { V::Node(n) => vec![V::Str(self.sv(*n))], V::Str(_) => c, _ => return uns("string-length of another context item") }
                } else { c };
                self.call(name, vec![c], f)
            }
            ("lang", 1) => { let c = ctx_arg(self)?; self.call(name, vec![a[0].clone(), c], f) }
            ("nilled", _) => match self.node1(&a[0])? {
                None => Ok(vec![]),
                Some(n) => if self.d.nodes[n].kind == Kind::Elem { b1(self.d.attr(n, "xsi:nil") == Some("true")) } else { Ok(vec![]) },
            },
            ("string", _) => match a[0].len() { 0 => s1(String::new()), 1 => s1(self.as_string(&a[0][0])?), _ => err("one item is needed") },
            ("data", _) => a[0].iter().map(|v| match v { V::Map(_) | V::Fun(_) => uns("data() of a function"), v => self.atomize1(v) }).collect(),
            ("abs", _) | ("ceiling", _) | ("floor", _) | ("round", _) => match a[0].as_slice() {
                [] => Ok(vec![]),
                [V::Int(i)] => if name == "abs" { match i.checked_abs() { Some(i) => Ok(vec![V::Int(i)]), None => err("overflow") } } else { Ok(vec![V::Int(*i)]) },
                [V::Dec(d)] => Ok(vec![V::Dec(rounding(name, *d) + 0.0)]),
                [V::Dbl(d)] => Ok(vec![V::Dbl(rounding(name, *d))]),
                [V::Node(n)] => Ok(vec![V::Dbl(rounding(name, str_double(&self.sv(*n))))]),
                _ => err("a number is needed"),
            },
            ("number", _) => match a[0].len() { 0 => Ok(vec![V::Dbl(f64::NAN)]), 1 => Ok(vec![V::Dbl(self.as_double(&a[0][0])?)]), _ => err("one item is needed") },
            ("codepoints-to-string", _) => {
                let mut s = String::new();
                for v in &a[0] { match v {
                    V::Int(i) => match if *i < 1 || *i > 0x10FFFF { None } else { char::from_u32(*i as u32) } { Some(c) => s.push(c), None => { if *i == 0 { return uns("code point 0"); } return err("not a code point"); } },
                    V::Str(_) | V::Bool(_) | V::Node(_) | V::Dec(_) | V::Dbl(_) => return uns("code point from another type"),
                    _ => return err("an integer is needed"),
                } }
                s1(s)
            }
            ("string-to-codepoints", _) => { let s = self.str_opt(&a[0])?; Ok(s.chars().map(|c| V::Int(c as i64)).collect()) }
            ("compare", _) | ("codepoint-equal", _) => {
                if a[0].is_empty() || a[1].is_empty() { return Ok(vec![]); }
                let (x, y) = (self.str_opt(&a[0])?, self.str_opt(&a[1])?);
                let o = x.chars().map(|c| c as u32).cmp(y.chars().map(|c| c as u32));
                if name == "compare" { Ok(vec![V::Int(o as i64)]) } else { b1(o == std::cmp::Ordering::Equal) }
            }
            ("concat", _) => { let mut s = String::new(); for x in &a { s += &self.concat_arg(x)?; } s1(s) }
            ("string-join", n) => {
                let sep = if n == 2 { match a[1].as_slice() { [V::Str(s)] => s.clone(), [V::Node(_)] => return uns("node where a string is needed"), _ => return err("separator") } } else { String::new() };
                let mut v = vec![];
                for x in &a[0] { v.push(self.as_string(x)?); }
                s1(v.join(&sep))
            }
            ("substring", n) => {
                if a[0].is_empty() { return s1(String::new()); }
                let s: Vec<char> = self.str_opt(&a[0])?.chars().collect();
                let b = self.num1(&a[1])?;
                let l = if n == 3 { Some(self.num1(&a[2])?) } else { None };
                s1(select(s.len(), b, l).into_iter().map(|i| s[i]).collect())
            }
            ("subsequence", n) => {
                if a[0].is_empty() { return Ok(vec![]); }
                let b = self.num1(&a[1])?;
                let l = if n == 3 { Some(self.num1(&a[2])?) } else { None };
                Ok(select(a[0].len(), b, l).into_iter().map(|i| a[0][i].clone()).collect())
            }
            ("string-length", _) => Ok(vec![V::Int(self.str_opt(&a[0])?.chars().count() as i64)]),
            ("normalize-space", _) => {
                let s = self.str_opt(&a[0])?;
                s1(s.split(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "))
            }
            ("upper-case", _) => { let s = self.str_opt(&a[0])?; s1(s.chars().flat_map(|c| c.to_uppercase()).collect()) }
            ("lower-case", _) => { let s = self.str_opt(&a[0])?; if s.contains('Σ') { return uns("final sigma"); } s1(s.chars().flat_map(|c| c.to_lowercase()).collect()) }
            ("translate", _) => {
                let s = self.str_opt(&a[0])?;
                if matches!(a[1].as_slice(), []) || matches!(a[2].as_slice(), []) { return uns("empty map string"); }
                let m: Vec<char> = self.str_opt(&a[1])?.chars().collect();
                let t: Vec<char> = self.str_opt(&a[2])?.chars().collect();
                s1(s.chars().filter_map(|c| match m.iter().position(|x| *x == c) { None => Some(c), Some(i) => t.get(i).cloned() }).collect())
            }
            ("contains", _) | ("starts-with", _) | ("ends-with", _) | ("substring-before", _) | ("substring-after", _) => {
                let x: Vec<char> = self.str_opt(&a[0])?.chars().collect();
                let y: Vec<char> = self.str_opt(&a[1])?.chars().collect();
                let at = if y.len() > x.len() { None } else { (0..=x.len() - y.len()).find(|i| x[*i..*i + y.len()] == y[..]) };
                match name {
                    "contains" => b1(at.is_some()),
                    "starts-with" => b1(at == Some(0)),
                    "ends-with" => b1(y.len() <= x.len() && x[x.len() - y.len()..] == y[..]),
                    "substring-before" => s1(at.map(|i| x[..i].iter().collect()).unwrap_or_default()),
                    _ => s1(at.map(|i| x[i + y.len()..].iter().collect()).unwrap_or_default()),
                }
            }
            ("true", _) => b1(true),
            ("false", _) => b1(false),
            ("boolean", _) => b1(ebv(&a[0])?),
            ("not", _) => b1(!ebv(&a[0])?),
            ("name", _) | ("local-name", _) | ("namespace-uri", _) => match self.node1(&a[0])? {
                None => s1(String::new()),
                Some(n) => {
                    let nm = &self.d.nodes[n].name;
                    if self.d.nodes[n].kind == Kind::Decl { return uns("XML declaration"); }
                    let el = matches!(self.d.nodes[n].kind, Kind::Elem | Kind::Attr);
                    match name {
                        "name" => s1(nm.clone()),
                        "local-name" => s1(if el { nm.find(':').map(|i| nm[i + 1..].to_string()).unwrap_or(nm.clone()) } else { nm.clone() }),
                        _ => { if nm.starts_with("xml:") || nm.starts_with("xmlns") { return uns("reserved prefix"); } s1(if el { self.d.namespace_uri(n) } else { String::new() }) }
                    }
                }
            },
            ("lang", _) => {
                let want = self.str_opt(&a[0])?.to_lowercase();
                let n = match self.node1(&a[1])? { Some(n) => n, None => return err("one node is needed") };
                let mut cur = Some(n);
                while let Some(i) = cur {
                    if let Some(v) = self.d.attr(i, "xml:lang") {
                        let v = v.to_lowercase();
                        return b1(v == want || v.starts_with(&(want.clone() + "-")));
                    }
                    cur = self.d.nodes[i].parent;
                }
                b1(false)
            }
            ("root", _) => match self.node1(&a[0])? { None => Ok(vec![]), Some(_) => Ok(vec![V::Node(0)]) },
            ("empty", _) => b1(a[0].is_empty()),
            ("exists", _) => b1(!a[0].is_empty()),
            ("head", _) => Ok(a[0].iter().take(1).cloned().collect()),
            ("tail", _) => Ok(a[0].iter().skip(1).cloned().collect()),
            ("insert-before", _) => {
                let p = self.int1(&a[1])?;
                let at = (p.max(1) as u64 - 1).min(a[0].len() as u64) as usize;
                let mut o = a[0].clone();
                let tail = o.split_off(at);
                o.extend(a[2].iter().cloned()); o.extend(tail);
                self.len_ok(&o)?;
                Ok(o)
            }
            ("remove", _) => { let p = self.int1(&a[1])?; Ok(a[0].iter().enumerate().filter(|(i, _)| *i as i64 + 1 != p).map(|(_, v)| v.clone()).collect()) }
            ("reverse", _) => Ok(a[0].iter().rev().cloned().collect()),
            ("index-of", _) => {
                if a[1].len() != 1 { return err("one search value is needed"); }
                let y = self.atomize1(&a[1][0])?;
                let mut o = vec![];
                for (i, x) in a[0].iter().enumerate() {
                    let x = match self.atomize1(x) { Ok(x) => x, Err(_) => return uns("function in index-of") };
                    if let Ok(true) = vcmp(Op::Eq, &x, &y) { o.push(V::Int(i as i64 + 1)); }
                }
                Ok(o)
            }
            ("zero-or-one", _) => if a[0].len() <= 1 { Ok(a[0].clone()) } else { err("more than one") },
            ("one-or-more", _) => if !a[0].is_empty() { Ok(a[0].clone()) } else { err("none") },
            ("exactly-one", _) => if a[0].len() == 1 { Ok(a[0].clone()) } else { err("not one") },
            ("count", _) => Ok(vec![V::Int(a[0].len() as i64)]),
            ("sum", n) => {
                if a[0].is_empty() { return Ok(if n == 2 { a[1].clone() } else { vec![V::Int(0)] }); }
                let mut acc = V::Int(0);
                for x in &a[0] { acc = arith(Op::Add, &acc, &self.num_item(x)?)?; }
                Ok(vec![acc])
            }
            ("avg", _) => {
                if a[0].is_empty() { return Ok(vec![]); }
                let s = self.call("sum", vec![a[0].clone()], f)?;
                Ok(vec![arith(Op::Div, &s[0], &V::Int(a[0].len() as i64))?])
            }
            ("max", _) | ("min", _) => {
                if a[0].is_empty() { return Ok(vec![]); }
                let mut at: Vec<V> = vec![];
                for x in &a[0] { at.push(self.atomize1(x)?); }
                if at.iter().any(|v| matches!(v, V::Dbl(d) if d.is_nan())) { return uns("NaN in max/min"); }
                let op = if name == "max" { Op::Lt } else { Op::Gt };
                let mut best = 0;
                for i in 0..at.len() { if vcmp(op, &at[best], &at[i])? { best = i; } }
                for i in 0..at.len() { if i != best && vcmp(Op::Eq, &at[best], &at[i])? {
                    // equal values of different types, or equal only as doubles: any of them is a maximum
                    if kind_of(&at[i]) != kind_of(&at[best]) || self.show(&at[i]) != self.show(&at[best]) { return uns("equal extreme values"); }
                    if i < best { best = i; }
                } }
                Ok(vec![a[0][best].clone()])
            }
            ("for-each", _) => {
                let mut o = vec![];
                if !matches!(a[1].as_slice(), [V::Fun(_)] | [V::Map(_)] | [V::Arr(_)]) { if a[0].is_empty() { return uns("no function"); } return err("a function is needed"); }
                for x in &a[0] { o.extend(self.apply(&a[1], vec![vec![x.clone()]], f)?); self.len_ok(&o)?; }
                Ok(o)
            }
            ("filter", _) => {
                let mut o = vec![];
                if !matches!(a[1].as_slice(), [V::Fun(_)] | [V::Map(_)] | [V::Arr(_)]) { if a[0].is_empty() { return uns("no function"); } return err("a function is needed"); }
                for x in &a[0] {
                    let v = self.apply(&a[1], vec![vec![x.clone()]], f)?;
                    match v.as_slice() { [V::Bool(b)] => if *b { o.push(x.clone()) }, _ => return uns("filter function that gives no boolean") }
                }
                Ok(o)
            }
            ("map:size", _) => match a[0].as_slice() { [V::Map(m)] => Ok(vec![V::Int(m.len() as i64)]), _ => err("a map is needed") },
            ("map:keys", _) => match a[0].as_slice() { [V::Map(m)] => Ok(m.iter().map(|(k, _)| k.clone()).collect()), _ => err("a map is needed") },
            ("map:contains", _) => match (a[0].as_slice(), a[1].len()) { ([V::Map(m)], 1) => { let k = self.key_of(&a[1][0])?; b1(mget(m, &k)?.is_some()) } _ => err("a map and a key are needed") },
            ("map:get", _) => match (a[0].as_slice(), a[1].len()) { ([V::Map(m)], 1) => { let k = self.key_of(&a[1][0])?; Ok(mget(m, &k)?.unwrap_or_default()) } _ => err("a map and a key are needed") },
            ("array:size", _) => match a[0].as_slice() { [V::Arr(m)] => Ok(vec![V::Int(m.len() as i64)]), _ => err("an array is needed") },
            ("array:get", _) => match (a[0].as_slice(), a[1].as_slice()) { ([V::Arr(m)], [V::Int(i)]) => Ok(aget(m, *i).unwrap_or_default()), ([V::Arr(_)], [_]) => uns("array index that is not an integer"), _ => err("an array and an index are needed") },
            ("array:flatten", _) => { let mut o = vec![]; flatten(&a[0], &mut o); Ok(o) }
            _ => uns("function not modelled"),
        }
    }

    fn num_item(&self, x: &V) -> Result<V, Er> {
        match x { V::Int(_) | V::Dec(_) | V::Dbl(_) => Ok(x.clone()), V::Node(n) => Ok(V::Dbl(str_double(&self.sv(*n)))), V::Map(_) | V::Fun(_) => err("not a number"), _ => uns("sum of other items") }
    }

    // -----------------------------------------------------------------
    // rendering

    pub fn show(&self, v: &V) -> Option<String> {
        Some(match v {
            // how a node is shown is not specified: taken from the node itself
            V::Node(n) => format!("{}", self.d.ptrs[*n]),
            V::Str(s) => format!("\"{}\"", s),
            V::Int(i) => i.to_string(),
            V::Dec(d) => { let s = plain(*d); if s.contains('.') { s } else { s + ".0" } }
            V::Dbl(d) => show_double(*d),
            V::Bool(b) => b.to_string(),
            V::Map(m) => { let mut p = vec![]; for (k, x) in m.iter() { p.push(format!("{} => {}", self.show(k)?, self.show_seq(x)?)); } format!("{{{}}}", p.join(", ")) }
            V::Arr(m) => { let mut p = vec![]; for x in m.iter() { p.push(self.show_seq(x)?); } format!("[{}]", p.join(", ")) }
            V::Fun(_) => return None,
        })
    }
    pub fn show_seq(&self, s: &S) -> Option<String> {
        if s.len() == 1 { return self.show(&s[0]); }
        let mut p = vec![];
        for x in s { p.push(self.show(x)?); }
        Some(format!("({})", p.join(", ")))
    }
}

pub fn flatten(s: &S, o: &mut S) { for x in s { match x { V::Arr(a) => for y in a.iter() { flatten(y, o) }, _ => o.push(x.clone()) } } }

fn mget(m: &Vec<(V, S)>, k: &V) -> Result<Option<S>, Er> {
    for (k2, v) in m {
        let same = match (k2, k) {
            (V::Str(a), V::Str(b)) => a == b,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Int(_) | V::Dec(_) | V::Dbl(_), V::Int(_) | V::Dec(_) | V::Dbl(_)) => {
                let (x, y) = (numv(k2), numv(k));
                if (x.abs() >= 9e15 || y.abs() >= 9e15) && x == y && (matches!(k2, V::Int(_)) || matches!(k, V::Int(_))) { return uns("big integer compared with another number"); }
                x == y || x.is_nan() && y.is_nan()
            }
            _ => false,
        };
        if same { return Ok(Some(v.clone())); }
    }
    Ok(None)
}
fn numv(v: &V) -> f64 { match v { V::Int(i) => *i as f64, V::Dec(d) | V::Dbl(d) => *d, _ => f64::NAN } }
fn aget(a: &Vec<S>, i: i64) -> Option<S> { if i >= 1 && (i as u64) <= a.len() as u64 { Some(a[i as usize - 1].clone()) } else { None } }

pub fn num(t: &str) -> f64 { t.parse::<f64>().unwrap() }
/// The digits of a number without exponent.
pub fn plain(d: f64) -> String { format!("{}", d) }
pub fn show_double(d: f64) -> String {
    if d.is_nan() { "NaN".into() } else if d.is_infinite() { if d > 0.0 { "+Infinity".into() } else { "-Infinity".into() } }
    else if d == 0.0 { if d.is_sign_negative() { "-0e0".into() } else { "0e0".into() } }
    else { format!("{:e}", d) }
}
/// White space of XML; nothing else counts as white space.
pub fn xml_trim(s: &str) -> &str { s.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r') }
/// The double a string denotes, if it has the lexical form of one.
pub fn lexical_double(s: &str, exponent: bool) -> Option<f64> {
    let s = xml_trim(s);
    if exponent { match s { "INF" | "+INF" | "+Infinity" => return Some(f64::INFINITY), "-INF" | "-Infinity" => return Some(f64::NEG_INFINITY), "NaN" => return Some(f64::NAN), _ => {} } }
    let cs: Vec<char> = s.chars().collect();
    let digits = |i: &mut usize| -> usize { let b = *i; while *i < cs.len() && cs[*i].is_ascii_digit() { *i += 1; } *i - b };
    let mut i = 0;
    if i < cs.len() && (cs[i] == '+' || cs[i] == '-') { i += 1; }
    let mut n = digits(&mut i);
    if i < cs.len() && cs[i] == '.' { i += 1; n += digits(&mut i); }
    if n == 0 { return None; }
    if exponent && i < cs.len() && (cs[i] == 'e' || cs[i] == 'E') {
        i += 1;
        if i < cs.len() && (cs[i] == '+' || cs[i] == '-') { i += 1; }
        if digits(&mut i) == 0 { return None; }
    }
    if i == cs.len() { Some(s.parse::<f64>().expect("a number")) } else { None }
}
pub fn str_double(s: &str) -> f64 { lexical_double(s, true).unwrap_or(f64::NAN) }

fn nodes(a: &S) -> Result<Vec<usize>, Er> {
    let mut o = vec![];
    for v in a { match v { V::Node(n) => o.push(*n), _ => return err("set operation on an item that is not a node") } }
    Ok(o)
}

pub fn ebv(v: &S) -> Result<bool, Er> {
    match v.as_slice() {
        [] => Ok(false),
        [V::Node(_), ..] => Ok(true),
        [V::Bool(b)] => Ok(*b),
        [V::Str(s)] => Ok(!s.is_empty()),
        [V::Int(i)] => Ok(*i != 0),
        [V::Dec(d)] | [V::Dbl(d)] => Ok(!(*d == 0.0 || d.is_nan())),
        _ => err("no effective boolean value"),
    }
}

/// Nearest integer, halves up, exactly.
fn round_half_up(d: f64) -> f64 {
    if d.is_nan() || d.is_infinite() || d.abs() >= 4503599627370496.0 { return d; }
    let t = d.trunc();
    let frac = d - t; // exact below 2^52
    if frac >= 0.5 { t + 1.0 } else if frac < -0.5 { t - 1.0 } else { t }
}
fn rounding(name: &str, d: f64) -> f64 {
    if name == "abs" { return d.abs(); }
    let r = match name { "ceiling" => d.ceil(), "floor" => d.floor(), _ => round_half_up(d) };
    if r == 0.0 && (d < 0.0 || d == 0.0 && d.is_sign_negative()) { return -0.0; }
    if r == 0.0 { return 0.0; }
    r
}

/// Positions p (0-based) with round(b) <= p+1 < round(b)+round(l).
fn select(n: usize, b: f64, l: Option<f64>) -> Vec<usize> {
    let rb = round_half_up(b);
    (0..n).filter(|i| {
        let p = (*i + 1) as f64;
        rb <= p && match l { None => true, Some(l) => p < rb + round_half_up(l) }
    }).collect()
}

fn unary(v: &S, neg: bool) -> Res {
    match v.as_slice() {
        [] => Ok(vec![]),
        [V::Int(i)] => if neg { match i.checked_neg() { Some(i) => Ok(vec![V::Int(i)]), None => err("overflow") } } else { Ok(vec![V::Int(*i)]) },
        [V::Dec(d)] => Ok(vec![V::Dec(if neg { 0.0 - *d } else { *d })]),
        [V::Dbl(d)] => Ok(vec![V::Dbl(if neg { -*d } else { *d })]),
        [V::Node(_)] => uns("arithmetic on a node"),
        _ => err("not a number"),
    }
}

pub fn arith(op: Op, a: &V, b: &V) -> Result<V, Er> {
    for x in [a, b] { match x { V::Int(_) | V::Dec(_) | V::Dbl(_) => {} V::Node(_) => return uns("arithmetic on a node"), V::Arr(_) => return uns("arithmetic on an array"), _ => return err("not a number") } }
    let dbl = matches!(a, V::Dbl(_)) || matches!(b, V::Dbl(_));
    if let (V::Int(x), V::Int(y)) = (a, b) {
        let (x, y) = (*x as i128, *y as i128);
        let fit = |r: i128| if r >= i64::MIN as i128 && r <= i64::MAX as i128 { Ok(V::Int(r as i64)) } else { err("integer overflow") };
        return match op {
            Op::Add => fit(x + y), Op::Sub => fit(x - y), Op::Mul => fit(x * y),
            Op::Div => if y == 0 { err("division by zero") } else { Ok(V::Dec(x as i64 as f64 / y as i64 as f64 + 0.0)) },
            Op::Idiv => if y == 0 { err("division by zero") } else { fit(x / y) },
            _ => if y == 0 { err("division by zero") } else { fit(x % y) },
        };
    }
    let (x, y) = (numv(a), numv(b));
    if op == Op::Idiv {
        if y == 0.0 && !x.is_nan() && !x.is_infinite() { return err("division by zero"); }
        if x.is_nan() || y.is_nan() || x.is_infinite() || y == 0.0 { return err("idiv without a result"); }
        let q = (x / y).trunc();
        if !(q >= -9223372036854775808.0 && q < 9223372036854775808.0) { return err("integer overflow"); }
        return Ok(V::Int(q as i64));
    }
    let r = match op { Op::Add => x + y, Op::Sub => x - y, Op::Mul => x * y, Op::Div => x / y, _ => x % y };
    if dbl { return Ok(V::Dbl(r)); }
    if matches!(op, Op::Div | Op::Mod) && y == 0.0 { return err("division by zero"); }
    if r.is_nan() || r.is_infinite() { return err("decimal overflow"); }
    Ok(V::Dec(r + 0.0))
}

/// Value comparison of two atomic values.
pub fn vcmp(op: Op, a: &V, b: &V) -> Result<bool, Er> {
    use std::cmp::Ordering::*;
    let o = match (a, b) {
        (V::Int(x), V::Int(y)) => Some(x.cmp(y)),
        (V::Int(_) | V::Dec(_) | V::Dbl(_), V::Int(_) | V::Dec(_) | V::Dbl(_)) => numv(a).partial_cmp(&numv(b)),
        (V::Str(x), V::Str(y)) => Some(x.chars().map(|c| c as u32).cmp(y.chars().map(|c| c as u32))),
        (V::Bool(x), V::Bool(y)) => Some(x.cmp(y)),
        (V::Arr(_), _) | (_, V::Arr(_)) => return uns("comparison of arrays"),
        _ => return err("incomparable"),
    };
    Ok(match op {
        Op::Eq => o == Some(Equal), Op::Ne => o != Some(Equal), Op::Lt => o == Some(Less),
        Op::Le => matches!(o, Some(Less | Equal)), Op::Gt => o == Some(Greater), _ => matches!(o, Some(Greater | Equal)),
    })
}

/// Is a function of these parameters and this result a function(args) as ret?
fn sig_matches(params: &[&Ty], r: &Ty, args: &[Ty], ret: &Ty) -> Result<bool, Er> {
    if params.len() != args.len() { return Ok(false); }
    // how a map or array counts as a function with a signature is not claimed
    let (mut mp, mut fu) = (false, false);
    for t in args.iter().chain([ret, r]).chain(params.iter().cloned()) { mentions(t, &mut mp, &mut fu); }
    if mp && fu { return uns("map or array as a typed function"); }
    Ok(subtype(r, ret) && params.iter().zip(args).all(|(p, a)| subtype(a, p)))
}

/// The functions whose signatures are claimed: parameters -> result, as in
/// XQuery and XPath Functions and Operators.
/// i item, n node, # numeric, a anyAtomicType, s string, z integer, d double, b boolean, m map(*), r array(*)
pub const SIGNATURES: [(&str, &str); 71] = [
    ("nilled", "-> b?"), ("nilled", "n? -> b?"), ("string", "-> s"), ("string", "i? -> s"), ("data", "-> a*"), ("data", "i* -> a*"),
    ("abs", "#? -> #?"), ("ceiling", "#? -> #?"), ("floor", "#? -> #?"), ("round", "#? -> #?"), ("number", "-> d"), ("number", "a? -> d"),
    ("codepoints-to-string", "z* -> s"), ("string-to-codepoints", "s? -> z*"), ("compare", "s? s? -> z?"), ("codepoint-equal", "s? s? -> b?"),
    ("concat", "a? a? -> s"), ("concat", "a? a? a? -> s"), ("concat", "a? a? a? a? -> s"), ("string-join", "s* s -> s"),
    ("substring", "s? d -> s"), ("substring", "s? d d -> s"), ("string-length", "-> z"), ("string-length", "s? -> z"),
    ("normalize-space", "-> s"), ("normalize-space", "s? -> s"), ("upper-case", "s? -> s"), ("lower-case", "s? -> s"), ("translate", "s? s s -> s"),
    ("contains", "s? s? -> b"), ("starts-with", "s? s? -> b"), ("ends-with", "s? s? -> b"), ("substring-before", "s? s? -> s"), ("substring-after", "s? s? -> s"),
    ("true", "-> b"), ("false", "-> b"), ("boolean", "i* -> b"), ("not", "i* -> b"), ("name", "-> s"), ("name", "n? -> s"), ("local-name", "-> s"), ("local-name", "n? -> s"),
    ("lang", "s? -> b"), ("lang", "s? n -> b"), ("root", "-> n"), ("root", "n? -> n?"), ("empty", "i* -> b"), ("exists", "i* -> b"), ("head", "i* -> i?"), ("tail", "i* -> i*"),
    ("insert-before", "i* z i* -> i*"), ("remove", "i* z -> i*"), ("reverse", "i* -> i*"), ("subsequence", "i* d -> i*"), ("subsequence", "i* d d -> i*"), ("index-of", "a* a -> z*"),
    ("zero-or-one", "i* -> i?"), ("one-or-more", "i* -> i+"), ("exactly-one", "i* -> i"), ("count", "i* -> z"), ("avg", "a* -> a?"), ("max", "a* -> a?"), ("min", "a* -> a?"), ("sum", "a* -> a"), ("sum", "a* a? -> a?"),
    ("position", "-> z"), ("last", "-> z"), ("map:size", "m -> z"), ("map:keys", "m -> a*"), ("array:size", "r -> z"), ("array:get", "r z -> i*"),
];
pub fn sig_of(i: usize) -> (Vec<Ty>, Ty) {
    let one = |w: &str| {
        let it = match w.as_bytes()[0] { b'i' => Item::Any, b'n' => Item::Node, b'#' => Item::Numeric, b'a' => Item::AnyAtomic, b's' => Item::Str, b'z' => Item::Integer, b'd' => Item::Double, b'b' => Item::Boolean, b'm' => Item::MapAny, _ => Item::ArrayAny };
        Ty::Of(it, match w.as_bytes().get(1) { None => Occ::One, Some(b'?') => Occ::Opt, Some(b'*') => Occ::Star, _ => Occ::Plus })
    };
    let mut ws: Vec<&str> = SIGNATURES[i].1.split_whitespace().collect();
    let r = one(ws.pop().unwrap());
    ws.pop();
    (ws.into_iter().map(one).collect(), r)
}
fn signature(n: &str, k: usize) -> Result<(Vec<Ty>, Ty), Er> {
    let n = n.strip_prefix("fn:").unwrap_or(n);
    for i in 0..SIGNATURES.len() { if SIGNATURES[i].0 == n { let (p, r) = sig_of(i); if p.len() == k { return Ok((p, r)); } } }
    if n == "concat" && k >= 2 && k <= 200 {
        let (p, r) = sig_of(SIGNATURES.iter().position(|x| x.0 == "concat").unwrap());
        return Ok((vec![p[0].clone(); k], r));
    }
    uns("signature of another named function")
}

fn mentions(t: &Ty, mp: &mut bool, fu: &mut bool) {
    if let Ty::Of(i, _) = t {
        match i {
            Item::MapAny | Item::ArrayAny => *mp = true,
            Item::MapOf(_, v) | Item::ArrayOf(v) => { *mp = true; mentions(v, mp, fu) }
            Item::FunOf(a, r) => { *fu = true; for x in a { mentions(x, mp, fu) } mentions(r, mp, fu) }
            _ => {}
        }
    }
}

fn kind_of(v: &V) -> u8 { match v { V::Int(_) => 0, V::Dec(_) => 1, V::Dbl(_) => 2, V::Str(_) => 3, _ => 4 } }

/// Name and type of the argument of element() or attribute().
fn kind_arg<'a>(nm: &'a Option<String>, ty: &'a str) -> (&'a str, &'a str) {
    match nm {
        None => ("*", ty),
        Some(s) => match s.find(',') { Some(i) => (&s[..i], &s[i + 1..]), None => (s, ty) },
    }
}
/// The schema type `a` is, or derives from, `b`.
fn derives(a: &str, b: &str) -> bool {
    let mut t = a;
    loop {
        if t == b { return true; }
        t = match t {
            "xs:integer" => "xs:decimal",
            "xs:decimal" | "xs:double" | "xs:string" | "xs:boolean" | "xs:untypedAtomic" => "xs:anyAtomicType",
            "xs:anyAtomicType" => "xs:anySimpleType",
            "xs:anySimpleType" | "xs:untyped" => "xs:anyType",
            _ => return false,
        };
    }
}

/// The sequence type `a` is a subtype of `b`.
pub fn subtype(a: &Ty, b: &Ty) -> bool {
    let (ai, ao) = match a { Ty::EmptySeq => return matches!(b, Ty::EmptySeq | Ty::Of(_, Occ::Opt) | Ty::Of(_, Occ::Star)), Ty::Of(i, o) => (i, o) };
    let (bi, bo) = match b { Ty::EmptySeq => return false, Ty::Of(i, o) => (i, o) };
    let occ = match (ao, bo) {
        (Occ::One, _) => true,
        (Occ::Opt, Occ::Opt | Occ::Star) => true,
        (Occ::Star, Occ::Star) => true,
        (Occ::Plus, Occ::Plus | Occ::Star) => true,
        _ => false,
    };
    occ && sub_item(ai, bi)
}
pub fn sub_item(a: &Item, b: &Item) -> bool {
    let up: &dyn Fn(&Item) -> Option<Item> = &|x| match x { Item::Integer => Some(Item::Decimal), Item::Decimal | Item::Double => Some(Item::Numeric), Item::Numeric | Item::Str | Item::Boolean => Some(Item::AnyAtomic), _ => None };
    if *b == Item::Any { return true; }
    if a == b { return true; }
    let mut x = a.clone();
    while let Some(y) = up(&x) { if y == *b { return true; } x = y; }
    match (a, b) {
        (Item::Element(_) | Item::Attribute(_) | Item::Text | Item::Comment | Item::Pi(_), Item::Node) => true,
        (Item::Pi(_), Item::Pi(None)) => true,
        (Item::Element(x), Item::Element(y)) => {
            let ((an, at), (bn, bt)) = (kind_arg(x, "xs:anyType?"), kind_arg(y, "xs:anyType?"));
            (bn == "*" || an == bn) && derives(at.trim_end_matches('?'), bt.trim_end_matches('?')) && (bt.ends_with('?') || !at.ends_with('?'))
        }
        (Item::Attribute(x), Item::Attribute(y)) => {
            let ((an, at), (bn, bt)) = (kind_arg(x, "xs:anyType"), kind_arg(y, "xs:anyType"));
            (bn == "*" || an == bn) && derives(at, bt)
        }
        (Item::MapAny | Item::MapOf(..) | Item::ArrayAny | Item::ArrayOf(_) | Item::FunOf(..), Item::FunAny) => true,
        (Item::MapOf(..), Item::MapAny) | (Item::ArrayOf(_), Item::ArrayAny) => true,
        (Item::MapAny, Item::MapOf(k, v)) => **k == Item::AnyAtomic && **v == Ty::Of(Item::Any, Occ::Star),
        (Item::ArrayAny, Item::ArrayOf(v)) => **v == Ty::Of(Item::Any, Occ::Star),
        (Item::MapOf(k, v), Item::MapOf(k2, v2)) => sub_item(k, k2) && subtype(v, v2),
        (Item::ArrayOf(v), Item::ArrayOf(v2)) => subtype(v, v2),
        (Item::FunOf(aa, ar), Item::FunOf(ba, br)) => aa.len() == ba.len() && subtype(ar, br) && aa.iter().zip(ba.iter()).all(|(x, y)| subtype(y, x)),
        _ => false,
    }
}

pub const FUNCTIONS: &[(&str, usize)] = &[
    ("nilled", 0), ("string", 0), ("data", 0), ("number", 0), ("string-length", 0), ("normalize-space", 0), ("name", 0), ("local-name", 0),
    ("namespace-uri", 0), ("lang", 1), ("root", 0), ("position", 0), ("last", 0), ("for-each", 2), ("filter", 2),
    ("nilled", 1), ("string", 1), ("data", 1), ("abs", 1), ("ceiling", 1), ("floor", 1), ("round", 1), ("number", 1),
    ("codepoints-to-string", 1), ("string-to-codepoints", 1), ("compare", 2), ("codepoint-equal", 2), ("string-join", 1), ("string-join", 2),
    ("substring", 2), ("substring", 3), ("string-length", 1), ("normalize-space", 1), ("upper-case", 1), ("lower-case", 1), ("translate", 3),
    ("contains", 2), ("starts-with", 2), ("ends-with", 2), ("substring-before", 2), ("substring-after", 2), ("true", 0), ("false", 0),
    ("boolean", 1), ("not", 1), ("name", 1), ("local-name", 1), ("namespace-uri", 1), ("lang", 2), ("root", 1), ("empty", 1), ("exists", 1),
    ("head", 1), ("tail", 1), ("insert-before", 3), ("remove", 2), ("reverse", 1), ("subsequence", 2), ("subsequence", 3), ("index-of", 2),
    ("zero-or-one", 1), ("one-or-more", 1), ("exactly-one", 1), ("count", 1), ("avg", 1), ("max", 1), ("min", 1), ("sum", 1), ("sum", 2),
    ("map:size", 1), ("map:keys", 1), ("map:contains", 2), ("map:get", 2), ("array:size", 1), ("array:get", 2), ("array:flatten", 1),
];

pub fn known_function(name: &str, n: usize) -> bool {
    let b = name.strip_prefix("fn:").unwrap_or(name);
    b == "concat" || FUNCTIONS.iter().any(|(f, k)| *f == b && *k == n)
}
pub fn context_dependent(name: &str, n: usize) -> bool {
    let b = name.strip_prefix("fn:").unwrap_or(name);
    matches!((b, n), ("nilled", 0) | ("string", 0) | ("data", 0) | ("number", 0) | ("string-length", 0) | ("normalize-space", 0) | ("name", 0) | ("local-name", 0) | ("namespace-uri", 0) | ("lang", 1) | ("root", 0) | ("position", 0) | ("last", 0))
}
