//! The reference semantics of expressions: an interpreter of our own over (value, error bound) pairs,
//! with second-order dual numbers for derivatives, and the judge that decides whether the outcome of
//! one call is explained by the values the context gave during it.
use crate::{
    ast::{Ast, B, U},
    build::{Out, Res, View},
    node::EKind,
    store::{Access, Any, How, Tensor},
};
use std::{collections::BTreeMap, rc::Rc};

const EPS: f64 = 2.3e-16;

/// A number with a bound on the rounding error a careful evaluation of it may have.
#[derive(Clone, Copy, Debug)]
pub struct E {
    pub v: f64,
    pub e: f64,
}

pub fn ex(v: f64) -> E { E { v, e: 0.0 } }

impl E {
    fn add(self, o: E) -> E {
        let v = self.v + o.v;
        E { v, e: self.e + o.e + EPS * v.abs() }
    }
    fn neg(self) -> E { E { v: -self.v, e: self.e } }
    fn sub(self, o: E) -> E { self.add(o.neg()) }
    fn mul(self, o: E) -> E {
        let v = self.v * o.v;
        // an exact zero stays an exact zero
        if (self.v == 0.0 && self.e == 0.0) || (o.v == 0.0 && o.e == 0.0) {
            return E { v, e: if v == 0.0 { 0.0 } else { f64::INFINITY } };
        }
        E { v, e: self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + EPS * v.abs() }
    }
    fn div(self, o: E) -> E {
        let v = self.v / o.v;
        let d = o.v.abs() - o.e;
        if d <= 0.0 {
            return E { v, e: if o.e == 0.0 && self.e == 0.0 { 0.0 } else { f64::INFINITY } };
        }
        E { v, e: (self.e + v.abs() * o.e) / d + EPS * v.abs() }
    }
    /// Apply a function, bounding the error by what it does at the ends of the interval.
    fn app(self, f: impl Fn(f64) -> f64) -> E {
        let v = f(self.v);
        let mut e = 64.0 * EPS * v.abs() + EPS;
        if self.e > 0.0 {
            for y in [f(self.v + self.e), f(self.v - self.e)] {
                let d = (y - v).abs();
                e += if d.is_nan() { f64::INFINITY } else { d };
            }
        }
        E { v, e }
    }
    fn un(self, u: U) -> E {
        match u {
            U::AddOne => self.add(ex(1.0)),
            U::SubOne => self.sub(ex(1.0)),
            U::OneSub => ex(1.0).sub(self),
            U::Double => self.add(self),
            U::Negate => self.neg(),
            U::Square => self.mul(self),
            U::Abs => E { v: self.v.abs(), e: self.e },
            U::Rabbit => self.mul(ex(1.0).sub(self)),
            U::Sign | U::Dirac => {
                if self.e > 0.0 && self.v.abs() <= 16.0 * self.e {
                    E { v: u.f(self.v), e: f64::INFINITY }
                } else {
                    ex(u.f(self.v))
                }
            },
            _ => self.app(|x| u.f(x)),
        }
    }
    fn powf(self, o: E) -> E {
        let v = self.v.powf(o.v);
        let mut e = 64.0 * EPS * v.abs();
        if self.e > 0.0 || o.e > 0.0 {
            for (a, b) in [(1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)] {
                let d = ((self.v + a * self.e).powf(o.v + b * o.e) - v).abs();
                e = if d.is_nan() { f64::INFINITY } else { e.max(d * 2.0 + 64.0 * EPS * v.abs()) };
            }
        }
        E { v, e }
    }
    fn zero(self) -> bool { self.v == 0.0 && self.e == 0.0 }
}

/// What the interpreter computes with.
pub trait Num: Copy {
    fn con(x: f64) -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn div(self, o: Self) -> Self;
    fn un(self, u: U) -> Self;
    fn pow(self, o: Self) -> Self;
}

impl Num for E {
    fn con(x: f64) -> E { ex(x) }
    fn add(self, o: E) -> E { E::add(self, o) }
    fn sub(self, o: E) -> E { E::sub(self, o) }
    fn mul(self, o: E) -> E { E::mul(self, o) }
    fn div(self, o: E) -> E { E::div(self, o) }
    fn un(self, u: U) -> E { E::un(self, u) }
    fn pow(self, o: E) -> E { self.powf(o) }
}

/// Value, two first derivatives and the mixed second one.
#[derive(Clone, Copy, Debug)]
pub struct HD {
    pub v: E,
    pub a: E,
    pub b: E,
    pub ab: E,
}

impl HD {
    fn chain(self, v: E, f1: E, f2: E) -> HD {
        HD { v, a: f1.mul(self.a), b: f1.mul(self.b), ab: f2.mul(self.a.mul(self.b)).add(f1.mul(self.ab)) }
    }
}

impl Num for HD {
    fn con(x: f64) -> HD { HD { v: ex(x), a: ex(0.0), b: ex(0.0), ab: ex(0.0) } }
    fn add(self, o: HD) -> HD { HD { v: self.v.add(o.v), a: self.a.add(o.a), b: self.b.add(o.b), ab: self.ab.add(o.ab) } }
    fn sub(self, o: HD) -> HD { HD { v: self.v.sub(o.v), a: self.a.sub(o.a), b: self.b.sub(o.b), ab: self.ab.sub(o.ab) } }
    fn mul(self, o: HD) -> HD {
        HD {
            v: self.v.mul(o.v),
            a: self.a.mul(o.v).add(self.v.mul(o.a)),
            b: self.b.mul(o.v).add(self.v.mul(o.b)),
            ab: self.ab.mul(o.v).add(self.v.mul(o.ab)).add(self.a.mul(o.b)).add(self.b.mul(o.a)),
        }
    }
    fn div(self, o: HD) -> HD {
        let one = ex(1.0);
        let inv = one.div(o.v);
        let f1 = inv.mul(inv).neg();
        let f2 = inv.mul(inv).mul(inv).add(inv.mul(inv).mul(inv));
        let r = self.mul(o.chain(inv, f1, f2));
        HD { v: self.v.div(o.v), ..r }
    }
    fn un(self, u: U) -> HD {
        let v = self.v.un(u);
        if u == U::Sign && self.v.v.abs() <= 16.0 * self.v.e {
            // no derivative at the step
            let no = E { v: f64::NAN, e: f64::INFINITY };
            return HD { v, a: no, b: no, ab: no };
        }
        if self.a.zero() && self.b.zero() && self.ab.zero() {
            return HD { v, a: ex(0.0), b: ex(0.0), ab: ex(0.0) };
        }
        let f1 = match u {
            U::Abs => self.v.un(U::Sign),
            U::Sign => self.v.un(U::Dirac),
            _ => self.v.app(|x| u.f1(x)),
        };
        let f2 = if self.b.zero() { ex(0.0) } else { self.v.app(|x| u.f2(x)) };
        self.chain(v, f1, f2)
    }
    fn pow(self, o: HD) -> HD {
        let v = self.v.powf(o.v);
        if o.a.zero() && o.b.zero() && o.ab.zero() {
            let k = o.v;
            let p1 = if k.zero() { ex(0.0) } else { k.mul(self.v.powf(k.sub(ex(1.0)))) };
            let p2 = if k.zero() || k.sub(ex(1.0)).v == 0.0 { ex(0.0) } else { k.mul(k.sub(ex(1.0))).mul(self.v.powf(k.sub(ex(2.0)))) };
            return self.chain(v, p1, p2);
        }
        let l = o.mul(self.un(U::Ln));
        HD { v, a: v.mul(l.a), b: v.mul(l.b), ab: v.mul(l.ab.add(l.a.mul(l.b))) }
    }
}

// --------------------------------------------------------------------------------------------
// Interpreter
// --------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct TN<N> {
    pub dims: Vec<usize>,
    pub data: Vec<N>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub path: Vec<u8>,
    pub kind: EKind,
}

/// Result of the interpreter: a value, or what prevented it. `dims` is what can be known of the
/// shape without the values.
pub struct R<N> {
    pub val: Option<TN<N>>,
    pub dims: Option<Vec<usize>>,
    pub faults: Vec<Fault>,
}

pub fn static_dims(id: Any) -> Option<Vec<usize>> {
    use crate::store::Kind::*;
    Some(match id.kind {
        S => vec![],
        A2 | T => vec![2],
        A3 => vec![3],
        M22 => vec![2, 2],
        M23 => vec![2, 3],
        M32 => vec![3, 2],
        M33 => vec![3, 3],
        R3 => vec![2, 3, 2],
        V | G | D => return None,
    })
}

/// Supplies the value of the next occurrence of an identifier (variables and memo slots), in
/// left-to-right order; the slot's occurrence comes before its sub-expression's.
pub trait Supply<N> {
    fn var(&mut self, id: Any) -> Option<TN<N>>;
    /// `None`: not filled.
    fn slot(&mut self, id: Any) -> Option<TN<N>>;
    /// Told the value computed for an empty slot.
    fn computed(&mut self, _id: Any, _r: &R<N>) {}
}

pub fn interp<N: Num>(a: &Ast, path: &mut Vec<u8>, s: &mut dyn Supply<N>) -> R<N> {
    match a {
        Ast::Var(id) => match s.var(*id) {
            Some(t) => R { dims: Some(t.dims.clone()), val: Some(t), faults: vec![] },
            None => R { val: None, dims: static_dims(*id), faults: vec![Fault { path: path.clone(), kind: EKind::Missing(*id) }] },
        },
        Ast::Con(t) => {
            let t = TN { dims: t.dims.clone(), data: t.data.iter().map(|x| N::con(*x)).collect() };
            R { dims: Some(t.dims.clone()), val: Some(t), faults: vec![] }
        },
        Ast::Un(u, x) => {
            let r = interp(x, path, s);
            R { val: r.val.map(|t| TN { dims: t.dims, data: t.data.iter().map(|x| x.un(*u)).collect() }), ..r }
        },
        Ast::Sum(x) => {
            let r = interp(x, path, s);
            R {
                val: r.val.map(|t| {
                    let mut it = t.data.iter().cloned();
                    let first = it.next().unwrap_or_else(|| N::con(0.0));
                    TN { dims: vec![], data: vec![it.fold(first, |a, x| a.add(x))] }
                }),
                dims: Some(vec![]),
                faults: r.faults,
            }
        },
        Ast::Cache(id, x) => match s.slot(*id) {
            Some(t) => R { dims: Some(t.dims.clone()), val: Some(t), faults: vec![] },
            None => {
                let r = interp(x, path, s);
                s.computed(*id, &r);
                r
            },
        },
        Ast::Bin(..) | Ast::Pow(..) | Ast::Con0(..) | Ast::Con1(..) | Ast::Con2(..) => {
            let (x, y) = match a {
                Ast::Bin(_, x, y) | Ast::Pow(x, y) | Ast::Con0(x, y) | Ast::Con1(x, y) | Ast::Con2(x, y) => (x, y),
                _ => unreachable!(),
            };
            path.push(0);
            let l = interp(x, path, s);
            path.pop();
            path.push(1);
            let r = interp(y, path, s);
            path.pop();
            let mut faults = l.faults;
            faults.extend(r.faults);
            let mut dims = None;
            match a {
                Ast::Pow(..) => dims = Some(vec![]),
                Ast::Bin(..) => {
                    if let (Some(p), Some(q)) = (&l.dims, &r.dims) {
                        if p == q || q.is_empty() {
                            dims = Some(p.clone());
                        } else if p.is_empty() {
                            dims = Some(q.clone());
                        } else {
                            // whether the values are there or not, these sizes do not go together
                            faults.push(Fault { path: path.clone(), kind: EKind::Shape(p.clone(), q.clone()) });
                        }
                    }
                },
                Ast::Con0(..) => {
                    if let (Some(p), Some(q)) = (&l.dims, &r.dims) {
                        dims = Some(p.iter().chain(q).cloned().collect());
                    }
                },
                _ => {
                    if let (Some(p), Some(q)) = (&l.dims, &r.dims) {
                        let (i, j) = split(a, p, q);
                        if p[i..] == q[..j] {
                            dims = Some(p[..i].iter().chain(&q[j..]).cloned().collect());
                        } else {
                            faults.push(Fault { path: path.clone(), kind: EKind::Shape(p.clone(), q.clone()) });
                        }
                    } else if let Ast::Con2(..) = a {
                        dims = Some(vec![]);
                    }
                },
            }
            let val = match (l.val, r.val) {
                (Some(x), Some(y)) if faults.is_empty() => Some(combine(a, x, y)),
                _ => None,
            };
            R { val, dims, faults }
        },
    }
}

/// Where the contracted axes of the left operand start and those of the right operand end.
fn split(a: &Ast, x: &[usize], y: &[usize]) -> (usize, usize) {
    let n = if let Ast::Con2(..) = a { 2 } else { 1 };
    (x.len().max(n) - n, n.min(y.len()))
}

fn combine<N: Num>(a: &Ast, x: TN<N>, y: TN<N>) -> TN<N> {
    match a {
        Ast::Pow(..) => TN { dims: vec![], data: vec![x.data[0].pow(y.data[0])] },
        Ast::Bin(b, ..) => {
            let f = |p: N, q: N| match b {
                B::Add => p.add(q),
                B::Sub => p.sub(q),
                B::Mul => p.mul(q),
                B::Div => p.div(q),
            };
            if y.dims.is_empty() {
                TN { dims: x.dims, data: x.data.iter().map(|p| f(*p, y.data[0])).collect() }
            } else if x.dims.is_empty() {
                TN { dims: y.dims, data: y.data.iter().map(|q| f(x.data[0], *q)).collect() }
            } else {
                TN { dims: x.dims, data: x.data.iter().zip(&y.data).map(|(p, q)| f(*p, *q)).collect() }
            }
        },
        Ast::Con0(..) => {
            let mut data = vec![];
            for p in &x.data {
                for q in &y.data {
                    data.push(p.mul(*q));
                }
            }
            TN { dims: x.dims.into_iter().chain(y.dims).collect(), data }
        },
        _ => {
            // last axes of the left with the first of the right
            if x.dims.is_empty() {
                return TN { dims: vec![], data: vec![x.data[0].mul(y.data[0])] };
            }
            let (p, q) = split(a, &x.dims, &y.dims);
            let m: usize = x.dims[p..].iter().product();
            let (n, k): (usize, usize) = (x.dims[..p].iter().product(), y.dims[q..].iter().product());
            let mut data = vec![];
            for i in 0..n {
                for j in 0..k {
                    if m == 0 {
                        data.push(N::con(0.0));
                        continue;
                    }
                    let mut acc = x.data[i * m].mul(y.data[j]);
                    for l in 1..m {
                        acc = acc.add(x.data[i * m + l].mul(y.data[l * k + j]));
                    }
                    data.push(acc);
                }
            }
            let mut dims = x.dims[..p].to_vec();
            dims.extend_from_slice(&y.dims[q..]);
            TN { dims, data }
        },
    }
}

/// Reference contraction over no axis (outer product) or one axis.
pub fn contracted(axes: usize, x: &Tensor, y: &Tensor) -> TN<E> {
    let d = || Rc::new(Ast::Con(Tensor::scalar(0.0)));
    let a = if axes == 0 { Ast::Con0(d(), d()) } else { Ast::Con1(d(), d()) };
    combine(&a, lift(x), lift(y))
}

pub fn lift(t: &Tensor) -> TN<E> { TN { dims: t.dims.clone(), data: t.data.iter().map(|x| ex(*x)).collect() } }

/// Supplies values from a table; every occurrence of an identifier gets the same one.
pub struct Table<'a> {
    pub vals: &'a dyn Fn(Any) -> Option<Tensor>,
    /// Treat memos as transparent.
    pub through: bool,
}
impl Supply<E> for Table<'_> {
    fn var(&mut self, id: Any) -> Option<TN<E>> { (self.vals)(id).map(|t| lift(&t)) }
    fn slot(&mut self, id: Any) -> Option<TN<E>> {
        if self.through {
            None
        } else {
            (self.vals)(id).map(|t| lift(&t))
        }
    }
}

pub fn value_at(a: &Ast, vals: &dyn Fn(Any) -> Option<Tensor>, through: bool) -> R<E> {
    interp(a, &mut vec![], &mut Table { vals, through })
}

/// Derivatives: the first target seeds `a`, the second `b`; `basis` is the component of the first.
struct Seeded<'a> {
    vals: &'a dyn Fn(Any) -> Option<Tensor>,
    t: Any,
    u: Option<Any>,
    basis: usize,
}
impl Supply<HD> for Seeded<'_> {
    fn var(&mut self, id: Any) -> Option<TN<HD>> {
        let t = (self.vals)(id)?;
        Some(TN {
            data: t
                .data
                .iter()
                .enumerate()
                .map(|(k, x)| {
                    let mut h = HD::con(*x);
                    if id == self.t && k == self.basis {
                        h.a = ex(1.0);
                    }
                    if Some(id) == self.u {
                        h.b = ex(1.0);
                    }
                    h
                })
                .collect(),
            dims: t.dims,
        })
    }
    fn slot(&mut self, _: Any) -> Option<TN<HD>> { None }
}

/// Reference gradient at the given values, or `None` if some variable is missing.
/// `tdims`: size of the first target, which need not occur.
pub fn grad_at(a: &Ast, view: View, vals: &dyn Fn(Any) -> Option<Tensor>, tdims: &[usize]) -> Option<TN<E>> {
    let ts = view.targets();
    let t = ts[0];
    let second = matches!(view, View::Hess(..) | View::HessDual(..));
    let u = if second { Some(ts[1]) } else { None };
    let comps: usize = tdims.iter().product();
    let mut cols: Vec<TN<HD>> = vec![];
    for basis in 0..comps {
        cols.push(interp(a, &mut vec![], &mut Seeded { vals, t, u, basis }).val?);
    }
    if comps == 0 {
        // a gradient by a target of size zero: no element, but the shape has to be right
        let mut dims = value_at(a, vals, true).val?.dims;
        dims.extend_from_slice(tdims);
        return Some(TN { dims, data: vec![] });
    }
    let mut dims = cols[0].dims.clone();
    dims.extend_from_slice(tdims);
    let mut data = vec![];
    for k in 0..cols[0].data.len() {
        for c in &cols {
            data.push(if second { c.data[k].ab } else { c.data[k].a });
        }
    }
    Some(TN { dims, data })
}

// --------------------------------------------------------------------------------------------
// Comparison
// --------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
pub enum Tol {
    Value,
    First,
    Second,
}

/// `Some(why)` if the library's result cannot be this reference result.
pub fn differs(got: &Tensor, want: &TN<E>, tol: Tol) -> Option<String> {
    if got.dims != want.dims {
        return Some(format!("shape {:?}, expected {:?}", got.dims, want.dims));
    }
    if got.data.len() != want.data.len() {
        return Some(format!("{} elements, expected {}", got.data.len(), want.data.len()));
    }
    for (k, (g, w)) in got.data.iter().zip(&want.data).enumerate() {
        let bad = if w.v.is_finite() && w.e.is_finite() {
            let t = match tol {
                Tol::Value => 16.0 * w.e + 1e-13 * w.v.abs() + 1e-300,
                Tol::First => 1e3 * w.e + 1e-9 * w.v.abs() + 1e-10,
                Tol::Second => 1e4 * w.e + 1e-7 * w.v.abs() + 1e-9,
            };
            !((g - w.v).abs() <= t)
        } else if w.v.is_infinite() && w.e == 0.0 && tol == Tol::Value {
            *g != w.v
        } else {
            false
        };
        if bad {
            return Some(format!("element {} is {:?}, expected {:?} (+-{:e}) in {:?}", k, g, w.v, w.e, got));
        }
    }
    None
}

pub fn close(a: &Tensor, b: &Tensor, rel: f64, abs: f64) -> bool {
    a.dims == b.dims
        && a.data.len() == b.data.len()
        && a.data.iter().zip(&b.data).all(|(x, y)| {
            x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= abs + rel * x.abs().max(y.abs())
        })
}

// --------------------------------------------------------------------------------------------
// The judge
// --------------------------------------------------------------------------------------------
pub struct Case<'a> {
    pub ast: &'a Ast,
    pub view: View,
    pub log: &'a [Access],
    /// States an identifier was in while the call ran.
    pub states: &'a dyn Fn(Any) -> Vec<Option<Tensor>>,
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Fine,
    Undecided,
    Bad(String),
}

/// One supply of values per occurrence.
struct Assign<'a> {
    cands: &'a BTreeMap<Any, Vec<Option<Tensor>>>,
    /// chosen candidate per (id, occurrence); missing entries take the digits below
    pick: &'a mut dyn FnMut(Any, usize, usize) -> usize,
    seen: BTreeMap<Any, usize>,
}
impl Assign<'_> {
    fn next(&mut self, id: Any) -> Option<TN<E>> {
        let n = self.seen.entry(id).or_insert(0);
        let k = *n;
        *n += 1;
        let c = match self.cands.get(&id) {
            Some(c) => c,
            None => return None,
        };
        let i = if c.len() <= 1 { 0 } else { (self.pick)(id, k, c.len()) };
        c[i].as_ref().map(lift)
    }
}
impl Supply<E> for Assign<'_> {
    fn var(&mut self, id: Any) -> Option<TN<E>> { self.next(id) }
    fn slot(&mut self, id: Any) -> Option<TN<E>> { self.next(id) }
}

fn distinct(v: impl IntoIterator<Item = Option<Tensor>>) -> Vec<Option<Tensor>> {
    let mut out: Vec<Option<Tensor>> = vec![];
    for x in v {
        let dup = out.iter().any(|y| match (&x, y) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same_bits(b),
            _ => false,
        });
        if !dup {
            out.push(x);
        }
    }
    out
}

impl Case<'_> {
    pub fn reads(&self, id: Any) -> Vec<Option<Tensor>> {
        self.log
            .iter()
            .filter_map(|a| match a {
                Access::Read { id: i, got, .. } if *i == id => Some(got.clone()),
                _ => None,
            })
            .collect()
    }

    pub fn cands(&self) -> BTreeMap<Any, Vec<Option<Tensor>>> {
        let mut m = BTreeMap::new();
        for id in self.ast.vars().into_iter().chain(self.ast.slots()) {
            let r = self.reads(id);
            let c = if r.is_empty() { distinct((self.states)(id)) } else { distinct(r) };
            m.insert(id, c);
        }
        m
    }

    /// Try every way of explaining the outcome; `ok` decides for one.
    fn explain(&self, ast: &Ast, ok: &mut dyn FnMut(&R<E>) -> Result<(), String>) -> Verdict {
        let cands = self.cands();
        // Greedy: the k-th occurrence gets what the k-th read got.
        let reads: BTreeMap<Any, Vec<Option<Tensor>>> = cands.keys().map(|id| (*id, self.reads(*id))).collect();
        let mut greedy = |id: Any, k: usize, n: usize| {
            let r = &reads[&id];
            if r.is_empty() {
                return 0;
            }
            let want = &r[k.min(r.len() - 1)];
            cands[&id]
                .iter()
                .position(|c| match (c, want) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.same_bits(b),
                    _ => false,
                })
                .unwrap_or(0)
                .min(n - 1)
        };
        let mut first = String::new();
        {
            let r = interp(ast, &mut vec![], &mut Assign { cands: &cands, pick: &mut greedy, seen: BTreeMap::new() });
            match ok(&r) {
                Ok(()) => return Verdict::Fine,
                Err(m) => first = if first.is_empty() { m } else { first },
            }
        }
        if cands.values().all(|c| c.len() <= 1) {
            return Verdict::Bad(first);
        }
        // Enumerate: an odometer over the occurrences met so far.
        let mut digits: Vec<(usize, usize)> = vec![];
        for _ in 0..4096 {
            let mut pos = 0;
            let mut pick = |_: Any, _: usize, n: usize| {
                if pos == digits.len() {
                    digits.push((0, n));
                }
                let d = digits[pos].0.min(n - 1);
                digits[pos].1 = n;
                pos += 1;
                d
            };
            let r = interp(ast, &mut vec![], &mut Assign { cands: &cands, pick: &mut pick, seen: BTreeMap::new() });
            if ok(&r).is_ok() {
                return Verdict::Fine;
            }
            digits.truncate(pos);
            loop {
                match digits.last_mut() {
                    None => return Verdict::Bad(first),
                    Some(d) if d.0 + 1 < d.1 => {
                        d.0 += 1;
                        break;
                    },
                    _ => {
                        digits.pop();
                    },
                }
            }
        }
        Verdict::Undecided
    }

    /// Is `t` the value of `ast` at the values of this call?
    pub fn explains_value(&self, ast: &Ast, t: &Tensor) -> Verdict {
        self.explain(ast, &mut |r| match &r.val {
            Some(v) => differs(t, v, Tol::Value).map_or(Ok(()), Err),
            None => Err(format!("a value although {:?}", r.faults)),
        })
    }

    fn named_missing(&self, id: Any) -> bool {
        self.log.iter().any(|a| matches!(a, Access::Read { id: i, got: None, .. } if *i == id))
    }

    /// Judge the outcome of one call.
    pub fn judge(&self, res: &Res) -> Verdict {
        match self.view {
            View::Value | View::Spec => match res {
                Ok(Out::Val(t)) => self.explains_value(self.ast, t),
                Ok(Out::Spec(lib, mine, name)) => {
                    if !close(lib, mine, 0.0, 0.0) {
                        return Verdict::Bad(format!("{} representation {:?} made dense by the library is {:?}", name, mine, lib));
                    }
                    self.explains_value(self.ast, mine)
                },
                Ok(o) => Verdict::Bad(format!("harness: {:?}", o)),
                Err(e) => self.judge_error(e),
            },
            View::Shape => match res {
                Ok(Out::Shape(d)) => self.explain(self.ast, &mut |r| match &r.dims {
                    // a shape may be known although some value is missing, never if the sizes do not fit -
                    // unless nobody has to look at them
                    Some(w) if w == d => {
                        if r.faults.iter().any(|f| matches!(f.kind, EKind::Shape(..))) && !blind(self.ast) {
                            Err(format!("shape {:?} although {:?}", d, r.faults))
                        } else {
                            Ok(())
                        }
                    },
                    w => Err(format!("shape {:?}, expected {:?} ({:?})", d, w, r.faults)),
                }),
                Ok(o) => Verdict::Bad(format!("harness: {:?}", o)),
                Err(e) => self.judge_error(e),
            },
            _ => self.judge_grad(res),
        }
    }

    fn judge_error(&self, e: &crate::node::DErr) -> Verdict {
        if let EKind::Missing(id) = e.kind {
            if !self.named_missing(id) {
                return Verdict::Bad(format!("reported missing {:?}, but no read of it failed: {:?}", id, e.text));
            }
        }
        self.explain(self.ast, &mut |r| {
            if r.faults.iter().any(|f| f.path == e.path && f.kind == e.kind) {
                Ok(())
            } else {
                Err(format!("error {:?} at sides {:?} ({:?}), expected one of {:?}", e.kind, e.path, e.text, r.faults))
            }
        })
    }

    fn judge_grad(&self, res: &Res) -> Verdict {
        let targets = self.view.targets();
        match res {
            Err(e) => match &e.kind {
                EKind::Missing(id) => {
                    if !self.named_missing(*id) {
                        return Verdict::Bad(format!("gradient reported missing {:?}, but no read of it failed", id));
                    }
                    if !self.ast.vars().contains(id) && !targets.contains(id) {
                        return Verdict::Bad(format!("gradient reported missing {:?}, which does not occur", id));
                    }
                    Verdict::Fine
                },
                EKind::Shape(p, q) if self.sized_at_run_time() => self.judge_grad_sizes(p, q, &e.text),
                k => Verdict::Bad(format!("gradient failed with {:?} ({})", k, e.text)),
            },
            Ok(out) => {
                // one value per variable during the call, or we cannot tell
                let mut vals: BTreeMap<Any, Option<Tensor>> = BTreeMap::new();
                for id in self.ast.vars() {
                    let c = self.cands().remove(&id).unwrap();
                    if c.len() != 1 {
                        return self.dual_value(out).unwrap_or(Verdict::Undecided);
                    }
                    vals.insert(id, c[0].clone());
                }
                let get = |id: Any| vals.get(&id).cloned().flatten();
                let tdims = match self.size_of(targets[0]) {
                    Some(d) => d,
                    None => return self.dual_value(out).unwrap_or(Verdict::Undecided),
                };
                let missing: Vec<Any> = vals.iter().filter(|(_, v)| v.is_none()).map(|(k, _)| *k).collect();
                if let Some(v @ Verdict::Bad(_)) = self.dual_value(out) {
                    return v;
                }
                // memos that were filled must have held the value at these variables
                if missing.is_empty() && self.stale_memo(&get) {
                    return Verdict::Undecided;
                }
                let (g, lib_dense): (&Tensor, Option<&Tensor>) = match out {
                    Out::Val(g) => (g, None),
                    Out::Spec(lib, mine, _) => (mine, Some(lib)),
                    Out::Dual(_, g) => (g, None),
                    Out::Shape(d) => {
                        // shape of the gradient
                        let r: R<E> = value_at(self.ast, &get, true);
                        let mut want = match r.dims {
                            Some(w) => w,
                            // sizes that do not fit, or that are not known
                            None if missing.is_empty() && !blind(self.ast) => {
                                return Verdict::Bad(format!("gradient shape {:?} although {:?}", d, r.faults))
                            },
                            None => return Verdict::Undecided,
                        };
                        want.extend(tdims);
                        return if *d == want { Verdict::Fine } else { Verdict::Bad(format!("gradient shape {:?}, expected {:?}", d, want)) };
                    },
                };
                if let Some(l) = lib_dense {
                    if !close(l, g, 0.0, 0.0) {
                        return Verdict::Bad(format!("gradient in structured form {:?} made dense by the library is {:?}", g, l));
                    }
                }
                let tol = if matches!(self.view, View::Hess(..) | View::HessDual(..)) { Tol::Second } else { Tol::First };
                if missing.is_empty() {
                    let want = match grad_at(self.ast, self.view, &get, &tdims) {
                        Some(w) => w,
                        None => return Verdict::Bad(format!("a gradient {:?} although {:?}", g, value_at(self.ast, &get, true).faults)),
                    };
                    return match differs(g, &want, tol) {
                        None => Verdict::Fine,
                        Some(m) => Verdict::Bad(format!("gradient: {}", m)),
                    };
                }
                // A gradient although some variable was missing: fine only if it does not depend on it.
                for m in missing {
                    let mut seen: Vec<TN<E>> = vec![];
                    for probe in [0.6, 0.8] {
                        let fill = |id: Any| {
                            if let Some(Some(t)) = vals.get(&id) {
                                return Some(t.clone());
                            }
                            let (lo, hi) = crate::build::range_of(id);
                            let d = static_dims(id)?;
                            let p = if id == m { probe } else { 0.5 };
                            Some(Tensor::full(&d, lo + p * (hi - lo)))
                        };
                        match grad_at(self.ast, self.view, &fill, &tdims) {
                            Some(w) => seen.push(w),
                            None => return Verdict::Undecided,
                        }
                    }
                    let depends = seen[0].data.iter().zip(&seen[1].data).any(|(a, b)| {
                        (a.v - b.v).abs() > 1e-3 && a.e < 1e-6 && b.e < 1e-6
                    });
                    if depends {
                        return Verdict::Bad(format!("a gradient {:?} although {:?} was missing", g, m));
                    }
                }
                Verdict::Undecided
            },
        }
    }

    /// Did a memo slot read in this call hold anything but the value at these variables?
    fn stale_memo(&self, get: &dyn Fn(Any) -> Option<Tensor>) -> bool {
        self.log.iter().any(|a| match a {
            Access::Read { id, got: Some(t), .. } if id.is_slot() => {
                let mut bad = false;
                self.ast.walk(&mut |n| {
                    if let Ast::Cache(i, x) = n {
                        if i == id {
                            let r: R<E> = value_at(x, get, true);
                            bad |= r.val.map_or(true, |v| differs(t, &v, Tol::Value).is_some());
                        }
                    }
                });
                bad
            },
            _ => false,
        })
    }

    fn sized_at_run_time(&self) -> bool {
        self.ast.vars().iter().chain(&self.view.targets()).any(|v| v.kind.dynamic())
    }

    /// Size of a gradient's target during the call, if it was only one.
    fn size_of(&self, t: Any) -> Option<Vec<usize>> {
        if let Some(d) = static_dims(t) {
            return Some(d);
        }
        let mut sizes: Vec<Vec<usize>> = (self.states)(t).into_iter().flatten().map(|v| v.dims).collect();
        sizes.dedup();
        if sizes.len() == 1 {
            sizes.pop()
        } else {
            None
        }
    }

    /// A gradient over buffers of run-time size reported sizes that do not fit.
    fn judge_grad_sizes(&self, p: &[usize], q: &[usize], text: &str) -> Verdict {
        let mut vals: BTreeMap<Any, Option<Tensor>> = BTreeMap::new();
        for (id, c) in self.cands() {
            if c.len() != 1 {
                return Verdict::Undecided;
            }
            if !id.is_slot() {
                vals.insert(id, c[0].clone());
            }
        }
        let t = match self.size_of(self.view.targets()[0]) {
            Some(t) => t,
            None => return Verdict::Undecided,
        };
        let get = |id: Any| vals.get(&id).cloned().flatten();
        if self.stale_memo(&get) {
            return Verdict::Undecided;
        }
        let r: R<E> = value_at(self.ast, &get, true);
        let with = |x: &[usize]| x.iter().chain(&t).cloned().collect::<Vec<_>>();
        let fits = |f: &Fault| match &f.kind {
            EKind::Shape(a, b) => [a.clone(), with(a)].iter().any(|a| a == p) && [b.clone(), with(b)].iter().any(|b| b == q),
            _ => false,
        };
        if r.faults.iter().any(fits) {
            return Verdict::Fine;
        }
        Verdict::Bad(format!("gradient reported sizes {:?} and {:?} ({:?}), expected one of {:?}", p, q, text, r.faults))
    }

    /// The value half of a dual query depends on every variable like the value does.
    fn dual_value(&self, out: &Out) -> Option<Verdict> {
        match (out, self.view) {
            (Out::Dual(..), View::HessDual(..)) => None,
            (Out::Dual(v, _), _) => Some(self.explains_value(self.ast, v)),
            _ => None,
        }
    }

    /// Properties of the accesses themselves: only identifiers of the expression are read, only empty
    /// memo slots are written, and only with the value of their sub-expression.
    pub fn judge_accesses(&self) -> Verdict {
        let (vars, slots, targets) = (self.ast.vars(), self.ast.slots(), self.view.targets());
        let mut undecided = false;
        for (k, a) in self.log.iter().enumerate() {
            match a {
                Access::Read { id, .. } => {
                    if !vars.contains(id) && !slots.contains(id) && !targets.contains(id) {
                        return Verdict::Bad(format!("read {:?}, which does not occur in the expression", id));
                    }
                },
                Access::Write { id, val, .. } => {
                    if !slots.contains(id) {
                        return Verdict::Bad(format!("wrote {:?} = {:?}, which is no memo slot of the expression", id, val));
                    }
                    let empty = self.log[..k].iter().any(|b| matches!(b, Access::Read { id: i, got: None, .. } if i == id));
                    if !empty {
                        return Verdict::Bad(format!("rewrote memo slot {:?}, which was never seen empty", id));
                    }
                    let mut inner: Option<Rc<Ast>> = None;
                    self.ast.walk(&mut |n| {
                        if let Ast::Cache(i, x) = n {
                            if i == id {
                                inner = Some(x.clone());
                            }
                        }
                    });
                    match self.explains_value(&inner.unwrap(), val) {
                        Verdict::Fine => {},
                        Verdict::Undecided => undecided = true,
                        Verdict::Bad(m) => return Verdict::Bad(format!("stored {:?} in memo slot {:?}: {}", val, id, m)),
                    }
                },
            }
        }
        if undecided {
            Verdict::Undecided
        } else {
            Verdict::Fine
        }
    }
}

/// Whether some operator answers shape queries without asking its operands.
fn blind(a: &Ast) -> bool {
    let mut b = false;
    a.walk(&mut |n| b |= matches!(n, Ast::Sum(_) | Ast::Pow(..)));
    b
}

pub fn interp_dims(a: &Ast) -> Option<Vec<usize>> {
    let r: R<E> = value_at(a, &|_| None, true);
    r.dims
}

#[allow(dead_code)]
fn _how(h: How) -> bool { h == How::Shape }
pub fn e_add(a: E, b: E) -> E { a.add(b) }
pub fn e_mul(a: E, b: E) -> E { a.mul(b) }
pub fn e_neg(a: E) -> E { a.neg() }
