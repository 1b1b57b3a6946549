//! Expressions over the library's own number types (signed, unsigned, single precision), where arithmetic is exact:
//! results must be equal to the last bit, and anything that only works for f64 shows. Arrays are larger here than
//! elsewhere, so that anything that only works for short ones shows as well.
use crate::{
    alloc::harness,
    sim::*,
};
use aegir::{
    buffers::{
        shapes::{IncompatibleShapes, Shape, ShapeOf},
        Buffer, Scalar, Spec,
    },
    errors::{BinaryError, NoError},
    meta::{Cached, SourceError, Variable},
    ops::*,
    Context, Function, Identifier, Node, Read, Write,
};
use std::{cell::Cell, collections::BTreeMap, fmt, rc::Rc};

// ---------------------------------------------------------------- number types
pub trait Num: Scalar + num_traits::FromPrimitive + fmt::Debug + 'static {
    const NAME: &'static str;
    const LOW: i128;
    const HIGH: i128;
    const EXACT_DIV: bool;
    fn of(x: i128) -> Self;
    fn back(self) -> Option<i128>;
}
macro_rules! num {
    ($($t:ident $lo:expr, $hi:expr, $d:expr);*) => {$(
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const LOW: i128 = $lo;
            const HIGH: i128 = $hi;
            const EXACT_DIV: bool = $d;
            fn of(x: i128) -> $t { x as $t }
            fn back(self) -> Option<i128> {
                let i = self as i128;
                if i as $t == self { Some(i) } else { None }
            }
        }
    )*};
}
num!(i8 -128, 127, false; i64 -(1 << 62), 1 << 62, false; u8 0, 255, false; u32 0, 0xffff_ffff, false; f32 -(1 << 23), 1 << 23, true; f64 -(1 << 52), 1 << 52, true);

// ---------------------------------------------------------------- buffers
/// Length of an array, rows and columns of a matrix.
pub const L: usize = 9;

pub trait Kind<P: Num>: Buffer<Field = P> + 'static {
    const K: u8;
    fn list(&self) -> Vec<P>;
    fn make(n: usize, f: &dyn Fn(usize) -> P) -> Self;
    /// The element, for a value that is zero off its diagonal and the same all along it.
    fn diagonal(&self) -> Option<P> { None }
}
impl<P: Num> Kind<P> for P {
    const K: u8 = 0;
    fn list(&self) -> Vec<P> { vec![*self] }
    fn make(_: usize, f: &dyn Fn(usize) -> P) -> P { f(0) }
}
impl<P: Num> Kind<P> for [P; L] {
    const K: u8 = 1;
    fn list(&self) -> Vec<P> { self.to_vec() }
    fn make(_: usize, f: &dyn Fn(usize) -> P) -> Self { std::array::from_fn(f) }
}
impl<P: Num> Kind<P> for Vec<P> {
    const K: u8 = 2;
    fn list(&self) -> Vec<P> { self.clone() }
    fn make(n: usize, f: &dyn Fn(usize) -> P) -> Self { (0..n).map(f).collect() }
}
impl<P: Num> Kind<P> for [[P; L]; L] {
    const K: u8 = 3;
    fn list(&self) -> Vec<P> { self.concat() }
    fn make(_: usize, f: &dyn Fn(usize) -> P) -> Self { std::array::from_fn(|i| std::array::from_fn(|j| f(i * L + j))) }
    fn diagonal(&self) -> Option<P> {
        let x = self[0][0];
        if (0..L).all(|i| (0..L).all(|j| self[i][j] == if i == j { x } else { P::zero() })) { Some(x) } else { None }
    }
}
fn len(k: u8, n: usize) -> usize { [1, L, n, L * L][k as usize] }

// ---------------------------------------------------------------- identifiers and context
macro_rules! xid {
    ($($id:ident)*) => {$(
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $id(pub u8);
        impl Identifier for $id {}
        impl fmt::Display for $id {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) }
        }
    )*};
}
xid!(XS XA XV XM);

/// A client's own context.
pub struct Cx<P: Num> {
    vals: BTreeMap<(u8, u8), Vec<P>>,
    n: usize,
    /// which read of the call is refused (0: none), and how many there were
    refuse: Cell<u32>,
    reads: Cell<u32>,
    writes: u32,
    switch: bool,
}
impl<P: Num> AsMut<Cx<P>> for Cx<P> {
    fn as_mut(&mut self) -> &mut Cx<P> { self }
}
impl<P: Num> Context for Cx<P> {}
impl<P: Num> Cx<P> {
    fn get<V: Kind<P>>(&self, n: u8) -> Option<V> {
        if self.switch && chance(1, 3) {
            yield_now();
        }
        let k = self.reads.get() + 1;
        self.reads.set(k);
        if self.refuse.get() == k {
            count("missing.read");
            return None;
        }
        harness(|| self.vals.get(&(V::K, n)).cloned()).map(|l| V::make(l.len(), &|i| l[i]))
    }
    pub fn fresh() -> Self {
        Cx { vals: harness(BTreeMap::new), n: 1, refuse: Cell::new(0), reads: Cell::new(0), writes: 0, switch: false }
    }
    /// Refuse the k-th read from now on (0: none).
    pub fn refuse(&self, k: u32) {
        self.refuse.set(k);
        self.reads.set(0);
    }
    pub fn refused(&self) -> bool { self.refuse.get() > 0 && self.reads.get() >= self.refuse.get() }
    pub fn put(&mut self, kind: u8, n: u8, l: Vec<P>) { harness(|| self.vals.insert((kind, n), l.clone())); }
    fn structured<V: Kind<P>>(&self, n: u8) -> Option<Spec<V>> {
        self.get::<V>(n).map(|v| {
            let l = v.list();
            if !l.is_empty() && l.iter().all(|x| *x == l[0]) && chance(1, 2) {
                count("repr.full");
                Spec::Full(v.shape(), l[0])
            } else if let Some(x) = v.diagonal().filter(|_| chance(1, 2)) {
                count("repr.diagonal");
                Spec::Diagonal(v.shape(), x)
            } else {
                Spec::Raw(v)
            }
        })
    }
}
macro_rules! reads {
    ($($id:ident $v:ty),*) => {$(
        impl<P: Num> Read<$id> for Cx<P> {
            type Buffer = $v;
            fn read(&self, i: $id) -> Option<$v> { self.get(i.0) }
            fn read_spec(&self, i: $id) -> Option<Spec<$v>> { self.structured(i.0) }
        }
        impl<P: Num> Write<$id> for Cx<P> {
            fn write(&mut self, i: $id, v: $v) {
                self.writes += 1;
                let l = v.list();
                harness(|| self.vals.insert((<$v as Kind<P>>::K, i.0), l.clone()));
            }
        }
    )*};
}
reads!(XS P, XA [P; L], XV Vec<P>, XM [[P; L]; L]);

// ---------------------------------------------------------------- nodes
#[derive(Debug)]
pub struct Er(String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Er {}
trait IntoEr {
    fn er(self) -> Er;
}
impl IntoEr for Er {
    fn er(self) -> Er { self }
}
impl IntoEr for NoError {
    fn er(self) -> Er { match self {} }
}
impl<I: fmt::Debug> IntoEr for SourceError<I> {
    fn er(self) -> Er { Er(format!("{:?}", self)) }
}
impl<L: Shape, R: Shape> IntoEr for IncompatibleShapes<L, R> {
    fn er(self) -> Er { Er(format!("{:?} {:?}", self.left, self.right)) }
}
impl<L: IntoEr, R: IntoEr, O: IntoEr> IntoEr for BinaryError<L, R, O> {
    fn er(self) -> Er {
        match self {
            BinaryError::Left(e) => e.er(),
            BinaryError::Right(e) => e.er(),
            BinaryError::Output(e) => e.er(),
        }
    }
}

trait Obj<P: Num, V: Buffer> {
    fn ev(&self, c: &mut Cx<P>) -> Result<V, Er>;
    fn sp(&self, c: &mut Cx<P>) -> Result<Spec<V>, Er>;
    fn sh(&self, c: &mut Cx<P>) -> Result<ShapeOf<V>, Er>;
}
struct Wrap<N>(N);
impl<P: Num, V: Buffer, N: Function<Cx<P>, Value = V>> Obj<P, V> for Wrap<N>
where
    N::Error: IntoEr,
{
    fn ev(&self, c: &mut Cx<P>) -> Result<V, Er> { self.0.evaluate(c).map_err(|e| e.er()) }
    fn sp(&self, c: &mut Cx<P>) -> Result<Spec<V>, Er> { self.0.evaluate_spec(c).map_err(|e| e.er()) }
    fn sh(&self, c: &mut Cx<P>) -> Result<ShapeOf<V>, Er> { self.0.evaluate_shape(c).map_err(|e| e.er()) }
}
pub struct Dn<P, V>(Rc<dyn Obj<P, V>>)
where
    P: Num,
    V: Buffer;
impl<P: Num, V: Buffer> Clone for Dn<P, V> {
    fn clone(&self) -> Self { Dn(self.0.clone()) }
}
impl<P: Num, V: Buffer> Node for Dn<P, V> {}
impl<P: Num, V: Buffer> Function<Cx<P>> for Dn<P, V> {
    type Value = V;
    type Error = Er;
    fn evaluate<CR: AsMut<Cx<P>>>(&self, mut c: CR) -> Result<V, Er> { self.0.ev(c.as_mut()) }
    fn evaluate_spec<CR: AsMut<Cx<P>>>(&self, mut c: CR) -> Result<Spec<V>, Er> { self.0.sp(c.as_mut()) }
    fn evaluate_shape<CR: AsMut<Cx<P>>>(&self, mut c: CR) -> Result<ShapeOf<V>, Er> { self.0.sh(c.as_mut()) }
}
fn dn<P: Num, V: Buffer, N: Function<Cx<P>, Value = V> + 'static>(n: N) -> Dn<P, V>
where
    N::Error: IntoEr,
{
    Dn(Rc::new(Wrap(n)))
}

// ---------------------------------------------------------------- what it should be
#[derive(Clone, Debug)]
enum T {
    Var(u8, u8),
    Con(Vec<i128>),
    Un(&'static str, Rc<T>),
    Bin(&'static str, Rc<T>, Rc<T>),
    Sum(Rc<T>),
    /// Contraction of the last axis of one with the first of the other; how many rows and columns come out.
    Dot(Rc<T>, Rc<T>, usize, usize),
    Memo(u8, u8, Rc<T>),
}

/// None: some step leaves the number type's range (or divides by zero, or is not exact).
fn model<P: Num>(t: &T, vals: &BTreeMap<(u8, u8), Vec<i128>>) -> Option<Vec<i128>> {
    let ok = |x: i128| if x >= P::LOW && x <= P::HIGH { Some(x) } else { None };
    match t {
        T::Var(k, n) => vals.get(&(*k, *n)).cloned(),
        T::Con(v) => Some(v.clone()),
        T::Memo(k, n, t) => match vals.get(&(*k, *n)) {
            Some(v) => Some(v.clone()),
            None => model::<P>(t, vals),
        },
        T::Un(op, t) => model::<P>(t, vals)?
            .into_iter()
            .map(|x| match *op {
                "SubOne" => ok(x - 1),
                "AddOne" => ok(x + 1),
                "OneSub" => ok(1 - x),
                "Double" => ok(2 * x),
                _ => ok(1 - x).and_then(|y| ok(x * y)),
            })
            .collect(),
        T::Bin(op, l, r) => {
            let (l, r) = (model::<P>(l, vals)?, model::<P>(r, vals)?);
            let n = if l.is_empty() || r.is_empty() { 0 } else { l.len().max(r.len()) };
            (0..n)
                .map(|i| {
                    let (x, y) = (l[i % l.len()], r[i % r.len()]);
                    match *op {
                        "Add" => ok(x + y),
                        "Sub" => ok(x - y),
                        "Mul" | "Outer" => ok(x * y),
                        _ if y == 0 || (P::EXACT_DIV && x % y != 0) => None,
                        _ => ok(x / y),
                    }
                })
                .collect()
        },
        T::Sum(t) => {
            let l = model::<P>(t, vals)?;
            ok(l.iter().map(|x| x.abs()).sum())?;
            Some(vec![l.iter().sum()])
        },
        T::Dot(l, r, rows, cols) => {
            let (l, r) = (model::<P>(l, vals)?, model::<P>(r, vals)?);
            let n = l.len() / rows;
            let one = |x: i128| x.abs().max(1);
            (0..rows * cols)
                .map(|c| {
                    let pairs = || (0..n).map(|k| (l[c / cols * n + k], r[k * cols + c % cols]));
                    ok(pairs().map(|(x, y)| one(x) * one(y)).sum())?;
                    Some(pairs().map(|(x, y)| x * y).sum())
                })
                .collect()
        },
    }
}

// ---------------------------------------------------------------- generation
pub struct E<P: Num, V: Buffer> {
    d: Dn<P, V>,
    t: Rc<T>,
}
impl<P: Num, V: Buffer> Clone for E<P, V> {
    fn clone(&self) -> Self { E { d: self.d.clone(), t: self.t.clone() } }
}

pub trait Ops<P: Num>: Kind<P> {
    fn var(n: u8) -> Dn<P, Self>;
    fn memo(n: u8, e: Dn<P, Self>) -> Dn<P, Self>;
    fn same(op: &'static str, l: Dn<P, Self>, r: Dn<P, Self>) -> Dn<P, Self>;
    fn left(op: &'static str, l: Dn<P, P>, r: Dn<P, Self>) -> Dn<P, Self>;
    fn right(op: &'static str, l: Dn<P, Self>, r: Dn<P, P>) -> Dn<P, Self>;
    /// Products with matrices that are of this kind again.
    fn times(_: Dn<P, [[P; L]; L]>, _: Dn<P, Self>) -> Dn<P, Self> { unreachable!() }
    fn before(_: Dn<P, Self>, _: Dn<P, [[P; L]; L]>) -> Dn<P, Self> { unreachable!() }
}
macro_rules! bins {
    ($op:expr, $l:expr, $r:expr; $($o:ident)*) => {
        match $op {
            $(stringify!($o) => dn($o($l, $r)),)*
            o => unreachable!("{}", o),
        }
    };
}
macro_rules! ops {
    ($($p:ident $($sub:ident)?;)*) => {$(
        ops!(@ $p, $p, XS, $($sub)?;);
        ops!(@ $p, [$p; L], XA, $($sub)?; Outer);
        ops!(@ $p, Vec<$p>, XV, $($sub)?;);
        ops!(@ $p, [[$p; L]; L], XM, $($sub)?; Outer);
    )*};
    (@ $p:ident, $v:ty, $id:ident, $($sub:ident)?; $($outer:ident)?) => {
        impl Ops<$p> for $v {
            fn var(n: u8) -> Dn<$p, Self> { dn(Variable($id(n))) }
            fn memo(n: u8, e: Dn<$p, Self>) -> Dn<$p, Self> { dn(Cached { node: e, ident: $id(n) }) }
            fn same(op: &'static str, l: Dn<$p, Self>, r: Dn<$p, Self>) -> Dn<$p, Self> { bins!(op, l, r; Add Mul Div $($sub)?) }
            fn left(op: &'static str, l: Dn<$p, $p>, r: Dn<$p, Self>) -> Dn<$p, Self> {
                $(if op == stringify!($outer) { return dn(Contract::<0, _, _>(l, r)); })?
                bins!(op, l, r; Add Mul Div $($sub)?)
            }
            fn right(op: &'static str, l: Dn<$p, Self>, r: Dn<$p, $p>) -> Dn<$p, Self> {
                $(if op == stringify!($outer) { return dn(Contract::<0, _, _>(l, r)); })?
                bins!(op, l, r; Add Mul Div $($sub)?)
            }
            ops!(@times $p, $($outer)?);
        }
        impl Signed<$v> for $p {
            const SUB: bool = ops!(@has $($sub)?);
            const OUTER: bool = ops!(@has $($outer)?);
        }
    };
    (@times $p:ident,) => {};
    (@times $p:ident, $outer:ident) => {
        fn times(l: Dn<$p, [[$p; L]; L]>, r: Dn<$p, Self>) -> Dn<$p, Self> { dn(Contract::<1, _, _>(l, r)) }
        fn before(l: Dn<$p, Self>, r: Dn<$p, [[$p; L]; L]>) -> Dn<$p, Self> { dn(Contract::<1, _, _>(l, r)) }
    };
    (@has) => { false };
    (@has $x:ident) => { true };
}
pub trait Signed<V> {
    const SUB: bool;
    const OUTER: bool;
}
ops! {
    i8 Sub;
    i64 Sub;
    f32 Sub;
    u8;
    u32;
}

thread_local! {
    /// every memo node of a tree has a slot of its own
    static SLOT: Cell<u8> = const { Cell::new(2) };
}

const UNS: [&str; 5] = ["AddOne", "SubOne", "OneSub", "Double", "Rabbit"];

fn gen<P: Num, V: Ops<P>>(depth: u32, n: usize) -> E<P, V>
where
    P: Signed<V> + Signed<P> + Signed<[P; L]> + Signed<Vec<P>> + Signed<[[P; L]; L]> + Ops<P>,
    [P; L]: Ops<P>,
    Vec<P>: Ops<P>,
    [[P; L]; L]: Ops<P>,
{
    let small = || below(4) as i128;
    match if depth == 0 { below(3) } else { below(10) } {
        0 | 1 => {
            let i = below(2) as u8;
            E { d: V::var(i), t: harness(|| Rc::new(T::Var(V::K, i))) }
        },
        2 => {
            let len = len(V::K, n);
            let v: Vec<i128> = if chance(1, 2) { vec![small(); len] } else { (0..len).map(|_| small()).collect() };
            let full = len > 0 && v.iter().all(|x| *x == v[0]) && chance(2, 3);
            let b = V::make(len, &|i| P::of(v[i]));
            let d = if full { dn(aegir::meta::Constant(Spec::Full(b.shape(), P::of(v[0])))) } else { dn(aegir::meta::Constant(b)) };
            E { d, t: harness(|| Rc::new(T::Con(v.clone()))) }
        },
        3 | 4 => {
            let e = gen::<P, V>(depth - 1, n);
            let op = pick(&UNS);
            let d = match op {
                "AddOne" => dn(AddOne(e.d)),
                "SubOne" => dn(SubOne(e.d)),
                "OneSub" => dn(OneSub(e.d)),
                "Double" => dn(Double(e.d)),
                _ => dn(Rabbit(e.d)),
            };
            E { d, t: harness(|| Rc::new(T::Un(op, e.t))) }
        },
        5..=7 => {
            let mut ops = vec!["Add", "Mul", "Div"];
            if <P as Signed<V>>::SUB {
                ops.push("Sub");
            }
            let how = below(4);
            if <P as Signed<V>>::OUTER && how >= 2 {
                ops.push("Outer");
            }
            let op = ops[below(ops.len() as u32) as usize];
            let (d, l, r) = match how {
                0 | 1 => {
                    let (l, r) = (gen::<P, V>(depth - 1, n), gen::<P, V>(depth - 1, n));
                    (V::same(op, l.d, r.d), l.t, r.t)
                },
                2 => {
                    let (l, r) = (gen::<P, P>(depth - 1, n), gen::<P, V>(depth - 1, n));
                    (V::left(op, l.d, r.d), l.t, r.t)
                },
                _ => {
                    let (l, r) = (gen::<P, V>(depth - 1, n), gen::<P, P>(depth - 1, n));
                    (V::right(op, l.d, r.d), l.t, r.t)
                },
            };
            E { d, t: harness(|| Rc::new(T::Bin(op, l, r))) }
        },
        8 => {
            let e = gen::<P, V>(depth - 1, n);
            let i = SLOT.with(|s| s.replace(s.get() + 1));
            E { d: V::memo(i, e.d), t: harness(|| Rc::new(T::Memo(V::K, i, e.t))) }
        },
        _ if V::K == 0 => {
            // a scalar made from something larger
            let (d, t): (Dn<P, P>, T) = match below(4) {
                0 => {
                    let e = gen::<P, [P; L]>(depth - 1, n);
                    (dn(Sum(e.d)), T::Sum(e.t))
                },
                1 => {
                    let e = gen::<P, Vec<P>>(depth - 1, n);
                    (dn(Sum(e.d)), T::Sum(e.t))
                },
                2 => {
                    let e = gen::<P, [[P; L]; L]>(depth - 1, n);
                    (dn(Sum(e.d)), T::Sum(e.t))
                },
                _ => {
                    let (l, r) = (gen::<P, [P; L]>(depth - 1, n), gen::<P, [P; L]>(depth - 1, n));
                    (dn(Contract::<1, _, _>(l.d, r.d)), T::Dot(l.t, r.t, 1, 1))
                },
            };
            // V is P here; go through the only type there is
            let d: Box<dyn std::any::Any> = Box::new(d);
            let d = *d.downcast::<Dn<P, V>>().expect("harness: a scalar");
            E { d, t: harness(|| Rc::new(t)) }
        },
        _ if V::K % 2 == 1 => {
            let (m, e) = (gen::<P, [[P; L]; L]>(depth - 1, n), gen::<P, V>(depth - 1, n));
            let last = if V::K == 1 { 1 } else { L };
            match chance(1, 2) {
                true => E { d: V::times(m.d, e.d), t: harness(|| Rc::new(T::Dot(m.t, e.t, L, last))) },
                false => E { d: V::before(e.d, m.d), t: harness(|| Rc::new(T::Dot(e.t, m.t, last, L))) },
            }
        },
        _ => gen::<P, V>(depth - 1, n),
    }
}

// ---------------------------------------------------------------- the workload
pub fn run() {
    count("op.exact");
    SLOT.with(|s| s.set(2));
    match below(5) {
        0 => of_type::<i64>(),
        1 => of_type::<u8>(),
        2 => of_type::<i8>(),
        3 => of_type::<u32>(),
        _ => of_type::<f32>(),
    }
}
fn of_type<P>()
where
    P: Num + Ops<P> + Signed<P> + Signed<[P; L]> + Signed<Vec<P>> + Signed<[[P; L]; L]>,
    [P; L]: Ops<P>,
    Vec<P>: Ops<P>,
    [[P; L]; L]: Ops<P>,
{
    match below(4) {
        0 => history::<P, P>(),
        1 => history::<P, [P; L]>(),
        2 => history::<P, Vec<P>>(),
        _ => history::<P, [[P; L]; L]>(),
    }
}

fn history<P, V>()
where
    V: Ops<P>,
    P: Num + Ops<P> + Signed<P> + Signed<[P; L]> + Signed<Vec<P>> + Signed<[[P; L]; L]> + Signed<V>,
    [P; L]: Ops<P>,
    Vec<P>: Ops<P>,
    [[P; L]; L]: Ops<P>,
{
    // an empty vector may be represented by a fill no cell holds, and arithmetic on that fill may leave the range
    let n = [2, 1, 3, 4, 5, 9, 17, 33][below(8) as usize];
    let e = gen::<P, V>(range(1, 4) as u32, n);
    fingerprint(harness(|| hash_str(&format!("{}{:?}", P::NAME, e.t))));
    sample(|| format!("{} {:?}", P::NAME, e.t));
    let clients = range(1, 3) as usize;
    let client = |id: usize| {
        let e = e.clone();
        move || {
            let mut c = Cx::<P> { vals: harness(BTreeMap::new), n, refuse: Cell::new(0), reads: Cell::new(0), writes: 0, switch: clients > 1 };
            for round in 0..range(1, 5) {
                if failed() {
                    return;
                }
                // values for which every step stays in range, preferably large ones
                let mut mine: Option<BTreeMap<(u8, u8), Vec<i128>>> = None;
                for t in 0..4 {
                    let vals = harness(|| {
                        let mut m = BTreeMap::new();
                        for k in 0..4u8 {
                            for i in 0..2u8 {
                                let big = [12, 5, 3, 1][t];
                                let low = if P::LOW < 0 { -big } else { 0 };
                                let one = range(low, big) as i128;
                                let form = below(if k == 3 { 4 } else { 3 });
                                let one_of = |j: usize| match form {
                                    0 => one,
                                    3 if j / L == j % L => one,
                                    3 => 0,
                                    _ => range(low, big) as i128,
                                };
                                m.insert((k, i), (0..len(k, c.n)).map(one_of).collect::<Vec<_>>());
                            }
                        }
                        m
                    });
                    if harness(|| model::<P>(&e.t, &vals)).is_some() {
                        mine = Some(vals);
                        break;
                    }
                }
                let Some(mut state) = mine else {
                    count_n("undefined", 1);
                    continue;
                };
                harness(|| {
                    // slots: kept from before when they are still right for the new values, else cleared
                    c.vals = state.iter().map(|(k, v)| (*k, v.iter().map(|x| P::of(*x)).collect())).collect();
                });
                for _ in 0..range(1, 4) {
                    let want = harness(|| model::<P>(&e.t, &state));
                    let Some(want) = want else { break };
                    let how = below(3);
                    let refuse = chance(1, 5);
                    c.refuse.set(if refuse { range(1, 5) as u32 } else { 0 });
                    c.reads.set(0);
                    let got: Called<Result<Vec<P>, Er>> = call(|| match how {
                        0 => e.d.evaluate(&mut c).map(|v| v.list()),
                        1 => e.d.evaluate_spec(&mut c).map(|v| v.unwrap().list()),
                        _ => e.d.evaluate_shape(&mut c).map(|s| vec![P::of(0); s.cardinality()]),
                    });
                    let refused = refuse && c.reads.get() >= c.refuse.get();
                    c.refuse.set(0);
                    let text = || format!("{} {:?} ({}) with {:?}", P::NAME, e.t, ["value", "structured", "shape"][how as usize], state);
                    match got {
                        Called::Done(Ok(l)) => {
                            nontrivial();
                            ev(95, id as u64, round as u64, || format!("client {}: {} = {:?}", id, text(), l));
                            if how == 2 {
                                if l.len() != want.len() {
                                    return fail(harness(|| format!("[exact] {}: shape of {} elements, expected {}", text(), l.len(), want.len())));
                                }
                            } else if l.len() != want.len() || l.iter().zip(&want).any(|(g, w)| g.back() != Some(*w)) {
                                return fail(harness(|| format!("[exact] {} = {:?}, expected {:?}", text(), l, want)));
                            }
                        },
                        Called::Done(Err(er)) => {
                            if !refused {
                                return fail(harness(|| format!("[exact] {} failed: {}", text(), er)));
                            }
                        },
                        Called::Crashed => unreachable!("harness"),
                        Called::Panicked(m) => return fail(harness(|| format!("[exact] {} panicked: {}", text(), m))),
                    }
                    // what the memo slots hold now is part of the state
                    harness(|| {
                        for (k, v) in &c.vals {
                            if k.1 >= 2 {
                                if let Some(l) = v.iter().map(|x| x.back()).collect::<Option<Vec<_>>>() {
                                    state.insert(*k, l);
                                }
                            }
                        }
                    });
                    if chance(1, 3) {
                        count("clear.slot");
                        harness(|| {
                            c.vals.retain(|k, _| k.1 < 2);
                            state.retain(|k, _| k.1 < 2);
                        });
                    }
                }
                harness(move || drop(state));
            }
            harness(move || drop(c));
        }
    };
    if clients == 1 {
        client(0)();
    } else {
        run_tasks(2, (0..clients).map(|i| Box::new(client(i)) as Box<dyn FnOnce()>).collect());
    }
}
