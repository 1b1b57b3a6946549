//! C11: a generated context is a set of independent registers.
//!
//! The contexts are the library's own (its macros run when the simulator is built); the buffers in
//! them include a simulated one whose clone, construction and shape query may be preempted or crash.
use crate::{
    alloc,
    field::SimF,
    orch::Prop,
    sim::{arm, below, call, chance, count, disarm, ev, fail, failed, fingerprint, mix, nontrivial, op_point, range, run_tasks, sample, yield_now, Called, Inject},
    store::{represent, Buf, IdV, KBuf, Kind, Tensor},
};
use aegir::{
    buffers::{
        shapes::{IncompatibleShapes, SDynamic, Shaped},
        Buffer, Class, Scalar, ZipFold, ZipMap,
    },
    ctx, ctx_type,
    ids::{C, D, E, X, Y, Z},
    ids, Context, Function, Identifier, Node, Read, Write,
};
use std::cell::{Cell, RefCell};

type F = SimF;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        run,
        rule: "context types, the histories of reads, writes and evaluations, who ran them, and where the buffers' own code was preempted or crashed",
        real: "the context types generated by ctx!, ctx_type! and derive(Context), the default methods of Read and Write, and evaluation against them, of /repo/aegir and /repo/aegir_derive",
        stub: "one of the buffer types (with crash and preemption points in its own code), the number type, the clients",
        quick: 1_500_000,
        thorough: 40_000_000,
        batch: 5000,
    }
}

// --------------------------------------------------------------------------------------------
// A buffer whose own code may fail
// --------------------------------------------------------------------------------------------
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn touch() {
    if !std::thread::panicking() {
        op_point();
    }
}

struct Alive;
impl Alive {
    fn new() -> Alive {
        LIVE.with(|l| l.set(l.get() + 1));
        Alive
    }
}
impl Drop for Alive {
    fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); }
}

pub struct TBuf<T> {
    data: Vec<T>,
    _alive: Alive,
}
impl<T> TBuf<T> {
    fn new(data: Vec<T>) -> TBuf<T> { TBuf { data, _alive: Alive::new() } }
}
impl<T: Clone> Clone for TBuf<T> {
    fn clone(&self) -> Self {
        touch();
        let c = TBuf::new(self.data.clone());
        touch();
        c
    }
    fn clone_from(&mut self, o: &Self) {
        touch();
        self.data.truncate(o.data.len());
        for (k, x) in o.data.iter().enumerate() {
            touch();
            if k < self.data.len() {
                self.data[k] = x.clone();
            } else {
                self.data.push(x.clone());
            }
        }
        touch();
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for TBuf<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.data.fmt(f) }
}
impl<T: PartialEq> PartialEq for TBuf<T> {
    fn eq(&self, o: &Self) -> bool { self.data == o.data }
}

pub struct Tracked;
impl Class<SDynamic<1>> for Tracked {
    type Buffer<T: Scalar> = TBuf<T>;
    fn build<T: Scalar>(s: SDynamic<1>, f: impl Fn([usize; 1]) -> T) -> TBuf<T> {
        TBuf::new((0..s[0]).map(|i| { touch(); f([i]) }).collect())
    }
    fn build_subset<T: Scalar>(s: SDynamic<1>, base: T, ixs: impl Iterator<Item = [usize; 1]>, f: impl Fn([usize; 1]) -> T) -> TBuf<T> {
        let mut b = TBuf::new(vec![base; s[0]]);
        for ix in ixs {
            b.data[ix[0]] = f(ix);
        }
        b
    }
}
impl<T> Shaped for TBuf<T> {
    type Shape = SDynamic<1>;
    fn shape(&self) -> SDynamic<1> {
        touch();
        SDynamic([self.data.len()])
    }
}
impl<T: Scalar> Buffer for TBuf<T> {
    type Class = Tracked;
    type Field = T;
    fn class() -> Tracked { Tracked }
    fn get_unchecked(&self, ix: [usize; 1]) -> T {
        touch();
        self.data[ix[0]]
    }
    fn map<A: Scalar, M: Fn(T) -> A>(mut self, f: M) -> TBuf<A> {
        touch();
        TBuf::new(std::mem::take(&mut self.data).into_iter().map(f).collect())
    }
    fn mutate<M: Fn(T) -> T>(&mut self, f: M) {
        for x in self.data.iter_mut() {
            touch();
            *x = f(*x);
        }
    }
}
impl<T: Scalar> ZipFold for TBuf<T> {
    fn zip_fold<A: Scalar, M: Fn(A, (T, T)) -> A>(&self, o: &Self, i: A, f: M) -> Result<A, IncompatibleShapes<SDynamic<1>>> {
        Ok(self.data.iter().zip(&o.data).fold(i, |a, (x, y)| f(a, (*x, *y))))
    }
}
impl<T: Scalar> ZipMap for TBuf<T> {
    type Output<A: Scalar> = TBuf<A>;
    fn zip_map<A: Scalar, M: Fn(T, T) -> A>(mut self, o: &Self, f: M) -> Result<TBuf<A>, IncompatibleShapes<SDynamic<1>>> {
        let (l, r) = (self.data.len(), o.data.len());
        if l != r {
            return Err(IncompatibleShapes { left: SDynamic([l]), right: SDynamic([r]) });
        }
        Ok(TBuf::new(std::mem::take(&mut self.data).into_iter().zip(&o.data).map(|(x, y)| f(x, *y)).collect()))
    }
    fn zip_shape(self, s: SDynamic<1>) -> Result<Self, IncompatibleShapes<SDynamic<1>>> {
        let l = self.data.len();
        if l != s[0] {
            return Err(IncompatibleShapes { left: SDynamic([l]), right: s });
        }
        Ok(self)
    }
}
impl KBuf for TBuf<F> {
    const KIND: Kind = Kind::V;
    type Id = IdV;
}
impl Buf for TBuf<F> {
    fn to_tensor(&self) -> Tensor { Tensor { dims: vec![self.data.len()], data: self.data.iter().map(|x| x.0).collect() } }
    fn from_tensor(t: &Tensor) -> Self { TBuf::new(t.data.iter().map(|x| SimF(*x)).collect()) }
    fn shape_of(d: &[usize]) -> SDynamic<1> { SDynamic([d[0]]) }
    fn dims_of(s: &SDynamic<1>) -> Vec<usize> { vec![s[0]] }
    fn fixed_dims() -> Option<Vec<usize>> { None }
}

// --------------------------------------------------------------------------------------------
// Identifiers
// --------------------------------------------------------------------------------------------
ids!(Weight::w, Bias::"b", Slot, Slot2, Plain);

pub trait Unit: Identifier {
    const U: Self;
}
macro_rules! units {
    ($($i:ident)*) => { $(impl Unit for $i { const U: $i = $i; })* };
}
units!(X Y Z C D E Weight Bias Slot Slot2 Plain);

// --------------------------------------------------------------------------------------------
// Registers and expressions of one context type
// --------------------------------------------------------------------------------------------
struct Field<C> {
    name: &'static str,
    memo: bool,
    kind: Kind,
    read: fn(&C) -> Option<Tensor>,
    spec: fn(&C) -> Option<Tensor>,
    shape: fn(&C) -> Option<Vec<usize>>,
    write: fn(&mut C, &Tensor),
    write_spec: fn(&mut C, &Tensor),
}

/// `T` is the type the field was declared with: the context must agree.
fn field<C, I, T>(name: &'static str, memo: bool) -> Field<C>
where
    I: Unit,
    C: Write<I> + Read<I, Buffer = T>,
    T: KBuf,
{
    Field {
        name,
        memo,
        kind: T::KIND,
        read: |c| c.read(I::U).map(|b| alloc::harness(|| b.to_tensor())),
        spec: |c| c.read_spec(I::U).map(|s| { let b = s.unwrap(); alloc::harness(|| b.to_tensor()) }),
        shape: |c| c.read_shape(I::U).map(|s| T::dims_of(&s)),
        write: |c, t| {
            let b = T::from_tensor(t);
            c.write(I::U, b)
        },
        write_spec: |c, t| {
            let s = represent::<T>(t, true);
            c.write_spec(I::U, s)
        },
    }
}

type Val = Result<Tensor, ()>;

struct Expr<C> {
    name: &'static str,
    run: fn(&mut C) -> Val,
    /// The value, and what is stored where, given the registers.
    model: fn(&dyn Fn(&str) -> Option<Tensor>) -> (Val, Vec<(&'static str, Tensor)>),
}

fn zip(a: &Tensor, b: &Tensor, f: fn(f64, f64) -> f64) -> Val {
    if a.dims != b.dims {
        return Err(());
    }
    Ok(Tensor { dims: a.dims.clone(), data: a.data.iter().zip(&b.data).map(|(x, y)| f(*x, *y)).collect() })
}

macro_rules! done {
    ($e:expr) => { $e.map(|b| alloc::harness(|| b.to_tensor())).map_err(|_| ()) };
}

macro_rules! base_exprs {
    ($c:ty; $x:ident $y:ident) => {
        vec![
            Expr::<$c> { name: "x", run: |c| done!($x.into_var().evaluate(c)), model: |g| (g(stringify!($x)).ok_or(()), vec![]) },
            Expr::<$c> { name: "x + y", run: |c| done!($x.into_var().add($y.into_var()).evaluate(c)), model: |g| {
                let (Some(x), Some(y)) = (g(stringify!($x)), g(stringify!($y))) else { return (Err(()), vec![]) };
                (zip(&x, &y, |a, b| a + b), vec![])
            } },
            Expr::<$c> { name: "spec of x - y", run: |c| done!($x.into_var().sub($y.into_var()).evaluate_spec(c).map(|s| s.unwrap())), model: |g| {
                let (Some(x), Some(y)) = (g(stringify!($x)), g(stringify!($y))) else { return (Err(()), vec![]) };
                (zip(&x, &y, |a, b| a - b), vec![])
            } },
            Expr::<$c> { name: "shape of x + y", run: |c| $x.into_var().add($y.into_var()).evaluate_shape(c).map(|s| {
                alloc::harness(|| Tensor::full(&<ShapeDims as DimsOf<_>>::of(&s), 0.0))
            }).map_err(|_| ()), model: |g| {
                let (Some(x), Some(y)) = (g(stringify!($x)), g(stringify!($y))) else { return (Err(()), vec![]) };
                (zip(&x, &y, |_, _| 0.0), vec![])
            } },
        ]
    };
}
macro_rules! memo_exprs {
    ($c:ty; $x:ident $y:ident $m:ident) => {
        vec![
            Expr::<$c> { name: "memo(x * y)", run: |c| done!($x.into_var().mul($y.into_var()).cached($m).evaluate(c)), model: |g| memo(g, stringify!($m), stringify!($x), stringify!($y)) },
            Expr::<$c> { name: "memo(x * y) + x", run: |c| done!($x.into_var().mul($y.into_var()).cached($m).add($x.into_var()).evaluate(c)), model: |g| {
                let (v, w) = memo(g, stringify!($m), stringify!($x), stringify!($y));
                let r = match (&v, g(stringify!($x))) {
                    (Ok(v), Some(x)) => zip(v, &x, |a, b| a + b),
                    _ => Err(()),
                };
                (r, w)
            } },
        ]
    };
}

fn memo(g: &dyn Fn(&str) -> Option<Tensor>, m: &'static str, x: &str, y: &str) -> (Val, Vec<(&'static str, Tensor)>) {
    if let Some(v) = g(m) {
        return (Ok(v), vec![]);
    }
    let (Some(x), Some(y)) = (g(x), g(y)) else { return (Err(()), vec![]) };
    match zip(&x, &y, |a, b| a * b) {
        Ok(v) => (Ok(v.clone()), vec![(m, v)]),
        e => (e, vec![]),
    }
}

trait DimsOf<S> {
    fn of(s: &S) -> Vec<usize>;
}
struct ShapeDims;
impl<S: crate::store::Dims> DimsOf<S> for ShapeDims {
    fn of(s: &S) -> Vec<usize> { s.dims() }
}

// --------------------------------------------------------------------------------------------
// Context types
// --------------------------------------------------------------------------------------------
ctx_type!(Many { x: X, cache c: C, y: Y, w: Weight, cache d: D, b: Bias });
ctx_type!(One { cache it: Slot });
ctx_type!(Pair { right: Y, left: X, });

// memo slots are declared with named types
type Arr<const N: usize> = [SimF; N];
type Mat = [[SimF; 2]; 2];

#[allow(dead_code)]
#[derive(Context)]
struct Derived<'a, B: Buffer, const N: usize>
where
    B: Clone,
{
    label: &'a str,
    /// documented, like any other field
    #[id(X)]
    pub x: B,
    #[cache]
    #[id(C)]
    c: Option<B>,
    #[id(Slot)]
    #[cache]
    pub(crate) s: Option<Arr<N>>,
    untracked: Option<B>,
    #[allow(unused)]
    #[id(Y)]
    y: B,
    #[id(Weight)]
    w: [SimF; N],
    #[id(Plain)]
    p: Vec<SimF>,
}

#[allow(dead_code)]
#[derive(Context)]
struct Slots {
    #[cache]
    #[id(C)]
    c: Option<Vec<SimF>>,
    #[cache]
    #[id(D)]
    d: Option<Vec<SimF>>,
    #[id(X)]
    x: Vec<SimF>,
    #[id(E)]
    #[cache]
    e: Option<Mat>,
    #[id(Z)]
    z: [[SimF; 2]; 2],
    #[id(Y)]
    y: Vec<SimF>,
}

/// Written by hand: everything but read and write is the traits' default.
struct Hand {
    x: Option<TBuf<F>>,
    y: TBuf<F>,
    m: Option<[[F; 2]; 2]>,
    c: Option<TBuf<F>>,
}
impl AsMut<Hand> for Hand {
    fn as_mut(&mut self) -> &mut Hand { self }
}
impl Context for Hand {}
macro_rules! hand {
    ($i:ident $b:ty, $me:ident $r:expr, $v:ident $w:expr) => {
        impl Read<$i> for Hand {
            type Buffer = $b;
            fn read(&self, _: $i) -> Option<$b> { let $me = self; $r }
        }
        impl Write<$i> for Hand {
            fn write(&mut self, _: $i, $v: $b) { let $me = self; $w }
        }
    };
}
hand!(X TBuf<F>, me me.x.clone(), v me.x = Some(v));
hand!(Y TBuf<F>, me Some(me.y.clone()), v me.y = v);
hand!(Z [[F; 2]; 2], me me.m, v me.m = Some(v));
hand!(C TBuf<F>, me me.c.clone(), v me.c = Some(v));

// --------------------------------------------------------------------------------------------
// Running one context
// --------------------------------------------------------------------------------------------
fn draw(kind: Kind) -> Tensor {
    let dims: Vec<usize> = match kind {
        Kind::S => vec![],
        Kind::A2 | Kind::T => vec![2],
        Kind::A3 => vec![3],
        Kind::M22 => vec![2, 2],
        Kind::G => vec![range(0, 2) as usize, range(0, 2) as usize],
        _ => vec![if chance(1, 4) { below(4) as usize } else { 2 }],
    };
    alloc::harness(|| match below(4) {
        0 => Tensor::full(&dims, below(5) as f64),
        1 => Tensor::diagonal(&dims, 1.0 + below(5) as f64),
        _ => {
            let n = dims.iter().product();
            Tensor { data: (0..n).map(|_| below(1000) as f64 / 8.0 - 60.0).collect(), dims }
        },
    })
}

fn val<B: KBuf>() -> B {
    let t = draw(B::KIND);
    let b = B::from_tensor(&t);
    alloc::harness(|| drop(t));
    b
}

struct World<'a, C> {
    ctx: RefCell<C>,
    model: RefCell<Vec<Option<Tensor>>>,
    fields: &'a [Field<C>],
    exprs: &'a [Expr<C>],
    name: &'static str,
}

fn same(a: &Option<Tensor>, b: &Option<Tensor>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same_bits(b),
        _ => false,
    }
}

impl<C> World<'_, C> {
    fn at(&self, i: usize) -> Option<Tensor> { self.model.borrow()[i].clone() }

    fn index(&self, name: &str) -> usize { self.fields.iter().position(|f| f.name == name).unwrap() }

    /// Every register, read in all three ways, without faults.
    fn audit(&self, after: &str) -> bool {
        let Ok(c) = self.ctx.try_borrow() else { return true };
        for (i, f) in self.fields.iter().enumerate() {
            let want = self.at(i);
            let got = call(|| ((f.read)(&c), (f.spec)(&c), (f.shape)(&c)));
            let Called::Done((r, s, d)) = got else {
                fail(format!("[panic] {}: reading {} after {} ended with {:?}", self.name, f.name, after, got));
                return false;
            };
            if !same(&r, &want) {
                fail(format!("[register] {}: after {}, {} reads {:?} instead of {:?}", self.name, after, f.name, r, want));
                return false;
            }
            if !same(&s, &want) {
                fail(format!("[structured] {}: after {}, {} reads {:?} in structured form instead of {:?}", self.name, after, f.name, s, want));
                return false;
            }
            if d != want.as_ref().map(|t| t.dims.clone()) {
                fail(format!("[shape] {}: after {}, {} reports shape {:?} for {:?}", self.name, after, f.name, d, want));
                return false;
            }
            if !f.memo && want.is_none() && self.name != "hand-written" {
                fail(format!("[empty] {}: ordinary field {} is empty", self.name, f.name));
                return false;
            }
        }
        true
    }

    fn faults(&self) -> bool {
        disarm();
        if chance(1, 3) {
            arm(range(1, 8) as u64, Inject::Crash);
            nontrivial();
            return true;
        }
        if chance(1, 3) {
            for _ in 0..range(1, 2) {
                arm(range(1, 8) as u64, Inject::Yield);
            }
            nontrivial();
        }
        false
    }

    fn step(&self, who: usize) -> bool {
        let k = below(self.fields.len() as u32) as usize;
        let f = &self.fields[k];
        let op = below(8);
        fingerprint(mix(mix(op as u64, k as u64), who as u64));
        match op {
            0 | 1 | 2 => {
                // a read, in one of three ways; others may read meanwhile
                let Ok(c) = self.ctx.try_borrow() else {
                    count("conflict.read");
                    return true;
                };
                let want = self.at(k);
                self.faults();
                let (w, r) = match op {
                    0 => ("read", call(|| (f.read)(&c)).map(|r| same(&r, &want))),
                    1 => ("read_spec", call(|| (f.spec)(&c)).map(|r| same(&r, &want))),
                    _ => ("read_shape", call(|| (f.shape)(&c)).map(|r| r == want.as_ref().map(|t| t.dims.clone()))),
                };
                disarm();
                ev(70 + op, k as u64, who as u64, || format!("client {} {} {} -> {:?} (register holds {:?})", who, w, f.name, r, want));
                match r {
                    Called::Done(true) | Called::Crashed => {},
                    Called::Done(false) => {
                        fail(format!("[register] {}: {} of {} disagrees with what was last written, {:?}", self.name, w, f.name, want));
                        return false;
                    },
                    Called::Panicked(m) => {
                        fail(format!("[panic] {}: {} of {} panicked: {}", self.name, w, f.name, m));
                        return false;
                    },
                }
                drop(c);
                self.audit(w)
            },
            3 | 4 | 5 => {
                let Ok(mut c) = self.ctx.try_borrow_mut() else {
                    count("conflict.write");
                    return true;
                };
                let t = draw(f.kind);
                let old = self.at(k);
                self.faults();
                let w = if op == 5 { "write_spec" } else { "write" };
                let r = call(|| if op == 5 { (f.write_spec)(&mut c, &t) } else { (f.write)(&mut c, &t) });
                disarm();
                count("update.write");
                ev(73, k as u64, t.hash(), || format!("client {} {} {} = {:?}: {:?}", who, w, f.name, t, r));
                match r {
                    Called::Done(()) => self.model.borrow_mut()[k] = Some(t),
                    Called::Crashed => {
                        // old or new
                        let now = call(|| (f.read)(&c));
                        let Called::Done(now) = now else {
                            fail(format!("[panic] {}: reading {} after a crashed {} ended with {:?}", self.name, f.name, w, now));
                            return false;
                        };
                        if same(&now, &Some(t.clone())) {
                            self.model.borrow_mut()[k] = Some(t);
                        } else if !same(&now, &old) {
                            fail(format!("[torn] {}: after a crash in {} of {:?}, {} holds {:?}; before, {:?}", self.name, w, t, f.name, now, old));
                            return false;
                        }
                    },
                    Called::Panicked(m) => {
                        fail(format!("[panic] {}: {} of {} panicked: {}", self.name, w, f.name, m));
                        return false;
                    },
                }
                drop(c);
                self.audit(w)
            },
            _ => {
                let Ok(mut c) = self.ctx.try_borrow_mut() else {
                    count("conflict.write");
                    return true;
                };
                if self.exprs.is_empty() {
                    return true;
                }
                let e = &self.exprs[below(self.exprs.len() as u32) as usize];
                let (want, stores) = alloc::harness(|| (e.model)(&|n| self.at(self.index(n))));
                self.faults();
                let r = call(|| (e.run)(&mut c));
                disarm();
                ev(74, k as u64, who as u64, || format!("client {} evaluates {} -> {:?}, expected {:?}", who, e.name, r, want));
                match &r {
                    Called::Done(got) => {
                        let ok = match (got, &want) {
                            (Ok(a), Ok(b)) => a.same_bits(b),
                            (Err(()), Err(())) => true,
                            _ => false,
                        };
                        if !ok {
                            fail(format!("[value] {}: {} gives {:?} instead of {:?}", self.name, e.name, got, want));
                            return false;
                        }
                        for (n, t) in stores {
                            let i = self.index(n);
                            self.model.borrow_mut()[i] = Some(t);
                        }
                    },
                    Called::Crashed => {
                        for (n, t) in stores {
                            let i = self.index(n);
                            let now = call(|| (self.fields[i].read)(&c));
                            let Called::Done(now) = now else {
                                fail(format!("[panic] {}: reading {} after a crash ended with {:?}", self.name, n, now));
                                return false;
                            };
                            if same(&now, &Some(t.clone())) {
                                self.model.borrow_mut()[i] = Some(t);
                            }
                        }
                    },
                    Called::Panicked(m) => {
                        fail(format!("[panic] {}: {} panicked: {}", self.name, e.name, m));
                        return false;
                    },
                }
                drop(c);
                self.audit(e.name)
            },
        }
    }
}

fn drive<C: Context>(name: &'static str, ctx: C, init: Vec<Option<Tensor>>, fields: Vec<Field<C>>, exprs: Vec<Expr<C>>) {
    fingerprint(crate::sim::hash_str(name));
    sample(|| format!("{}: {:?}", name, fields.iter().zip(&init).map(|(f, t)| format!("{} = {:?}", f.name, t)).collect::<Vec<_>>()));
    let w = World { ctx: RefCell::new(ctx), model: RefCell::new(init), fields: &fields, exprs: &exprs, name };
    let n = range(1, 3) as usize;
    if !w.audit("construction") {
        return;
    }
    let mut tasks: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for who in 0..n {
        let nops = range(2, 10);
        let w = &w;
        tasks.push(Box::new(move || {
            for _ in 0..nops {
                if failed() || !w.step(who) {
                    return;
                }
                yield_now();
            }
        }));
    }
    if tasks.len() == 1 {
        (tasks.pop().unwrap())()
    } else {
        run_tasks(4, tasks)
    }
    if !failed() {
        w.audit("everything");
    }
    disarm();
}

/// The initial value, with its picture.
fn init<B: KBuf>(m: &mut Vec<Option<Tensor>>) -> B {
    let b: B = val();
    m.push(Some(b.to_tensor()));
    b
}
fn slot<B: KBuf>(m: &mut Vec<Option<Tensor>>) -> Option<B> {
    if chance(1, 3) {
        Some(init(m))
    } else {
        m.push(None);
        None
    }
}

/// The expression types need concrete buffers: one implementation per buffer.
pub trait Zippy {
    fn many();
    fn derived();
    fn pair();
    fn anonymous();
}
macro_rules! zippy {
    ($($b:ty),*) => {$(
        impl Zippy for $b {
            fn many() {
                type Ty = Many<$b, $b, $b, Vec<F>, [F; 2], (F, F)>;
                let mut m = vec![];
                let ctx: Ty = Many { x: init(&mut m), c: slot(&mut m), y: init(&mut m), w: init(&mut m), d: slot(&mut m), b: init(&mut m) };
                let fields: Vec<Field<Ty>> = vec![
                    field::<Ty, X, $b>("X", false), field::<Ty, C, $b>("C", true), field::<Ty, Y, $b>("Y", false),
                    field::<Ty, Weight, Vec<F>>("Weight", false), field::<Ty, D, [F; 2]>("D", true), field::<Ty, Bias, (F, F)>("Bias", false),
                ];
                let mut ex = base_exprs!(Ty; X Y);
                ex.extend(memo_exprs!(Ty; X Y C));
                drive("ctx_type! with six fields", ctx, m, fields, ex)
            }
            fn derived() {
                type Ty = Derived<'static, $b, 3>;
                let mut m = vec![];
                let ctx: Ty = Derived { label: "l", x: init(&mut m), c: slot(&mut m), s: slot(&mut m), untracked: None, y: init(&mut m), w: init(&mut m), p: init(&mut m) };
                let fields: Vec<Field<Ty>> = vec![
                    field::<Ty, X, $b>("X", false), field::<Ty, C, $b>("C", true), field::<Ty, Slot, [F; 3]>("Slot", true),
                    field::<Ty, Y, $b>("Y", false), field::<Ty, Weight, [F; 3]>("Weight", false), field::<Ty, Plain, Vec<F>>("Plain", false),
                ];
                let mut ex = base_exprs!(Ty; X Y);
                ex.extend(memo_exprs!(Ty; X Y C));
                drive("derive(Context) with generics", ctx, m, fields, ex)
            }
            fn pair() {
                type Ty = Pair<$b, $b>;
                let mut m = vec![];
                let ctx: Ty = Pair { right: init(&mut m), left: init(&mut m) };
                let fields: Vec<Field<Ty>> = vec![field::<Ty, Y, $b>("Y", false), field::<Ty, X, $b>("X", false)];
                drive("ctx_type! with two fields", ctx, m, fields, base_exprs!(Ty; Y X))
            }
            fn anonymous() {
                let mut m = vec![];
                let (a, b, c, d): ($b, (F, F), $b, Vec<F>) = (init(&mut m), init(&mut m), init(&mut m), init(&mut m));
                let ctx = ctx! { X = a, Bias = b, Y = c, Weight = d };
                drive("ctx! with four entries", ctx, m, vec![
                    field::<_, X, $b>("X", false), field::<_, Bias, (F, F)>("Bias", false), field::<_, Y, $b>("Y", false), field::<_, Weight, Vec<F>>("Weight", false),
                ], vec![])
            }
        }
    )*};
}
zippy!(TBuf<F>, Vec<F>, F, [F; 2], (F, F));

fn slots() {
    let mut m = vec![];
    let ctx = Slots { c: slot(&mut m), d: slot(&mut m), x: init(&mut m), e: slot(&mut m), z: init(&mut m), y: init(&mut m) };
    let fields: Vec<Field<Slots>> = vec![
        field::<_, C, Vec<F>>("C", true), field::<_, D, Vec<F>>("D", true), field::<_, X, Vec<F>>("X", false),
        field::<_, E, [[F; 2]; 2]>("E", true), field::<_, Z, [[F; 2]; 2]>("Z", false), field::<_, Y, Vec<F>>("Y", false),
    ];
    let mut ex = base_exprs!(Slots; X Y);
    ex.extend(memo_exprs!(Slots; X Y C));
    ex.extend(memo_exprs!(Slots; X Y D));
    ex.push(Expr { name: "memo(z * z) in E", run: |c| done!(Z.into_var().mul(Z.into_var()).cached(E).evaluate(c)), model: |g| memo(g, "E", "Z", "Z") });
    drive("derive(Context) with three memo slots", ctx, m, fields, ex)
}

fn hand() {
    let mut m = vec![];
    let ctx = Hand { x: slot(&mut m), y: init(&mut m), m: slot(&mut m), c: slot(&mut m) };
    let fields: Vec<Field<Hand>> = vec![
        field::<_, X, TBuf<F>>("X", false), field::<_, Y, TBuf<F>>("Y", false), field::<_, Z, [[F; 2]; 2]>("Z", false), field::<_, C, TBuf<F>>("C", true),
    ];
    let mut ex = base_exprs!(Hand; X Y);
    ex.extend(memo_exprs!(Hand; X Y C));
    drive("hand-written", ctx, m, fields, ex)
}

fn one() {
    let mut m = vec![];
    let ctx: One<TBuf<F>> = One { it: slot(&mut m) };
    drive("ctx_type! with one memo slot", ctx, m, vec![field::<_, Slot, TBuf<F>>("Slot", true)], vec![])
}

fn run() {
    let before = alloc::stats();
    let live = LIVE.with(|l| l.get());
    match below(8) {
        0 | 1 => many_of(below(5)),
        2 => slots(),
        3 => hand(),
        4 => one(),
        5 => each(below(5), 1),
        6 => each(below(5), 2),
        _ => each(below(5), 3),
    }
    if failed() {
        return;
    }
    let left = LIVE.with(|l| l.get()) - live;
    if left != 0 {
        fail(format!("[drop] {} buffers are dropped {} than once", left.abs(), if left > 0 { "less" } else { "more" }));
    }
    let after = alloc::stats();
    if after.2 != before.2 {
        fail("[free] memory is freed twice or wrongly");
    }
}

fn many_of(k: u32) {
    match k {
        0 => <TBuf<F> as Zippy>::many(),
        1 => <Vec<F> as Zippy>::many(),
        2 => <F as Zippy>::many(),
        3 => <[F; 2] as Zippy>::many(),
        _ => <(F, F) as Zippy>::many(),
    }
}
fn each(k: u32, what: u32) {
    fn go<B: Zippy>(what: u32) {
        match what {
            1 => B::derived(),
            2 => B::pair(),
            _ => B::anonymous(),
        }
    }
    match k {
        0 => go::<TBuf<F>>(what),
        1 => go::<Vec<F>>(what),
        2 => go::<F>(what),
        3 => go::<[F; 2]>(what),
        _ => go::<(F, F)>(what),
    }
}
