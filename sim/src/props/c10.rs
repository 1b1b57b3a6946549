//! C10: bulk buffer operations visit each element once, even if a callback fails.
//!
//! Callbacks are the seam: every call is logged, and the simulator may preempt it, crash it, or let
//! it start another bulk operation on the same (shared) buffers.
use crate::{
    alloc,
    field::SimF,
    store::Grid,
    orch::Prop,
    sim::{below, call, chance, count, crash, ev, fail, failed, fingerprint, mix, nontrivial, range, run_tasks, sample, yield_now, Called},
};
use aegir::buffers::{
    shapes::{IndexOf, S0, S1, S2, S3, S4, S5, SDynamic, Shape, Shaped},
    Arrays, Buffer, Class, Scalar, Scalars, Tuples, Vecs, ZipFold, ZipMap, ZipMut,
};
use std::cell::{Cell, RefCell};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        run,
        rule: "buffer kinds and field types, the operations, the lists of positions, and where callbacks were preempted, crashed or re-entered",
        real: "build, build_subset, full, zeroes, ones, diagonal, identity, get, map, map_ref, mutate, fold, sum, zip_map, zip_map_id, zip_shape, zip_fold, zip_mut of /repo/aegir's scalars, tuples, vectors and arrays, and the provided methods of its traits on a user-written matrix",
        stub: "the callbacks, the lists of positions, the clients",
        quick: 3_000_000,
        thorough: 60_000_000,
        batch: 10_000,
    }
}

// --------------------------------------------------------------------------------------------
// Fields: small integer codes in any number type
// --------------------------------------------------------------------------------------------
pub trait Fld: Scalar + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn code(c: u32) -> Self;
    /// A value that only a floating-point type has.
    fn odd(c: u32) -> Self { Self::code(c) }
    fn bits(self) -> u64;
    fn real(self) -> f64;
}
macro_rules! ints {
    ($($t:ident)*) => {$(
        impl Fld for $t {
            const NAME: &'static str = stringify!($t);
            fn code(c: u32) -> $t { assert!(c < 128); c as $t }
            fn bits(self) -> u64 { self as u64 }
            fn real(self) -> f64 { self as f64 }
        }
    )*};
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
macro_rules! floats {
    ($($t:ident)*) => {$(
        impl Fld for $t {
            const NAME: &'static str = stringify!($t);
            fn code(c: u32) -> $t { c as $t }
            fn odd(c: u32) -> $t {
                [$t::NAN, $t::INFINITY, -0.0, 0.0, $t::MIN_POSITIVE / 4.0, $t::NEG_INFINITY, $t::MAX, -1.5][c as usize % 8]
            }
            fn bits(self) -> u64 { self.to_bits() as u64 }
            fn real(self) -> f64 { self as f64 }
        }
    )*};
}
floats!(f32 f64);
impl Fld for SimF {
    const NAME: &'static str = "SimF";
    fn code(c: u32) -> SimF { SimF(c as f64) }
    fn odd(c: u32) -> SimF { SimF(f64::odd(c)) }
    fn bits(self) -> u64 { self.0.to_bits() }
    fn real(self) -> f64 { self.0 }
}

// --------------------------------------------------------------------------------------------
// Concrete buffers, read and written without the library
// --------------------------------------------------------------------------------------------
pub trait Nest: Sized + Clone {
    type F: Fld;
    fn make(len: usize, next: &mut dyn FnMut() -> Self::F) -> Self;
    fn flat(&self, out: &mut Vec<u64>);
}
macro_rules! leaf {
    ($($t:ident)*) => {$(
        impl Nest for $t {
            type F = $t;
            fn make(_: usize, next: &mut dyn FnMut() -> $t) -> $t { next() }
            fn flat(&self, out: &mut Vec<u64>) { out.push(Fld::bits(*self)) }
        }
    )*};
}
leaf!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 SimF);
impl<T: Nest, const N: usize> Nest for [T; N] {
    type F = T::F;
    fn make(l: usize, next: &mut dyn FnMut() -> T::F) -> Self { std::array::from_fn(|_| T::make(l, next)) }
    fn flat(&self, out: &mut Vec<u64>) { self.iter().for_each(|x| x.flat(out)) }
}
impl<T: Fld + Nest<F = T>> Nest for Vec<T> {
    type F = T;
    fn make(l: usize, next: &mut dyn FnMut() -> T) -> Self { (0..l).map(|_| next()).collect() }
    fn flat(&self, out: &mut Vec<u64>) { self.iter().for_each(|x| x.flat(out)) }
}
impl<T: Fld + Nest<F = T>> Nest for (T, T) {
    type F = T;
    fn make(_: usize, next: &mut dyn FnMut() -> T) -> Self { let a = next(); (a, next()) }
    fn flat(&self, out: &mut Vec<u64>) { self.0.flat(out); self.1.flat(out) }
}
/// A user's own buffer, with the trait's provided methods; the second dimension follows from the first.
impl<T: Fld + Nest<F = T>> Nest for Grid<T> {
    type F = T;
    fn make(l: usize, next: &mut dyn FnMut() -> T) -> Self {
        let dims = [l, grid_cols(l)];
        Grid { dims, data: (0..dims[0] * dims[1]).map(|_| next()).collect() }
    }
    fn flat(&self, out: &mut Vec<u64>) { self.data.iter().for_each(|x| x.flat(out)) }
}
fn grid_cols(l: usize) -> usize { [1, 3, 2, 4, 0][l % 5] }
fn flat<B: Nest>(b: &B) -> Vec<u64> {
    let mut v = vec![];
    b.flat(&mut v);
    v
}

/// Indices as lists of coordinates.
pub trait Coord: Copy {
    fn coords(&self) -> Vec<usize>;
    fn from(c: &[usize]) -> Self;
}
impl Coord for () {
    fn coords(&self) -> Vec<usize> { vec![] }
    fn from(_: &[usize]) {}
}
impl Coord for usize {
    fn coords(&self) -> Vec<usize> { vec![*self] }
    fn from(c: &[usize]) -> usize { c[0] }
}
impl<const N: usize> Coord for [usize; N] {
    fn coords(&self) -> Vec<usize> { self.to_vec() }
    fn from(c: &[usize]) -> Self { std::array::from_fn(|i| c[i]) }
}

/// Position of the coordinates in row-major order, if they are inside.
fn offset(dims: &[usize], c: &[usize]) -> Option<usize> {
    let mut o = 0;
    for (d, i) in dims.iter().zip(c) {
        if i >= d {
            return None;
        }
        o = o * d + i;
    }
    Some(o)
}
fn unoffset(dims: &[usize], mut o: usize) -> Vec<usize> {
    let mut c = vec![0; dims.len()];
    for k in (0..dims.len()).rev() {
        c[k] = o % dims[k];
        o /= dims[k];
    }
    c
}

// --------------------------------------------------------------------------------------------
// Callbacks
// --------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Call {
    a: u64,
    b: u64,
    ret: u64,
}

/// One instrumented callback: logs, and fails, yields or re-enters where the simulator says.
struct Cb<'a> {
    calls: RefCell<Vec<Call>>,
    n: Cell<u32>,
    crash_at: Option<u32>,
    preempt: bool,
    nest: Option<(u32, &'a dyn Fn())>,
}

const RET: u32 = 64;

impl<'a> Cb<'a> {
    fn new(p: &Plan, nest: &'a dyn Fn()) -> Cb<'a> {
        Cb { calls: RefCell::new(vec![]), n: Cell::new(0), crash_at: p.crash_at, preempt: p.preempt, nest: p.nest_at.map(|k| (k, nest)) }
    }

    /// Called at every callback; returns the code of the answer.
    fn hit<A: Fld>(&self, a: u64, b: u64) -> A {
        let n = self.n.get() + 1;
        self.n.set(n);
        if n > 1500 {
            // a runaway operation: end it
            fail("[calls] the callback is called without end");
            crash();
        }
        let ret = A::code(RET + (n - 1) % 64);
        self.calls.borrow_mut().push(Call { a, b, ret: ret.bits() });
        ev(60, a, b, || format!("callback call {} with ({:x}, {:x})", n, a, b));
        if self.preempt && chance(1, 3) {
            count("preempt.callback");
            yield_now();
        }
        if let Some((k, f)) = self.nest {
            if k == n {
                count("reenter.callback");
                f();
            }
        }
        if self.crash_at == Some(n) {
            count("crash.callback");
            ev(61, n as u64, 0, || format!("callback call {} fails", n));
            self.calls.borrow_mut().pop();
            crash();
        }
        ret
    }
}

#[derive(Clone, Debug, Default)]
struct Plan {
    crash_at: Option<u32>,
    preempt: bool,
    nest_at: Option<u32>,
}

fn plan(n: usize, depth: u32, faults: bool) -> Plan {
    let mut p = Plan { preempt: chance(1, 4), ..Plan::default() };
    if faults && chance(1, 2) {
        p.crash_at = Some(range(1, (n as i64).max(1) + 1) as u32);
    }
    if depth == 0 && chance(1, 6) {
        p.nest_at = Some(range(1, (n as i64).max(1)) as u32);
    }
    p
}

// --------------------------------------------------------------------------------------------
// Checks
// --------------------------------------------------------------------------------------------
/// The calls, each with its own element's arguments: complete or (after a failure) a part of them.
fn check_calls(what: &str, calls: &[Call], want: &[(u64, u64)], whole: bool) -> bool {
    let mut left: Vec<(u64, u64)> = want.to_vec();
    for c in calls {
        match left.iter().position(|w| *w == (c.a, c.b)) {
            Some(i) => {
                left.swap_remove(i);
            },
            None => {
                fail(format!("[calls] {}: callback called with ({:x}, {:x}), which is no element('s turn): elements {:x?}, calls {:x?}", what, c.a, c.b, want, calls));
                return false;
            },
        }
    }
    if whole && !left.is_empty() {
        fail(format!("[calls] {}: callback never called for {:x?}; calls {:x?}", what, left, calls));
        return false;
    }
    true
}

/// Each output is the answer to the call for the element at that position.
fn check_out(what: &str, out: &[u64], calls: &[Call], want: &[(u64, u64)]) -> bool {
    if !check_calls(what, calls, want, true) {
        return false;
    }
    if out.len() != want.len() {
        fail(format!("[size] {}: {} results for {} elements", what, out.len(), want.len()));
        return false;
    }
    let mut used = vec![false; calls.len()];
    for (p, o) in out.iter().enumerate() {
        let hit = calls.iter().enumerate().position(|(i, c)| !used[i] && c.ret == *o && (c.a, c.b) == want[p]);
        match hit {
            Some(i) => used[i] = true,
            None => {
                fail(format!("[place] {}: result {:x} at position {} is not the callback's answer for ({:x}, {:x}); calls {:x?}", what, o, p, want[p].0, want[p].1, calls));
                return false;
            },
        }
    }
    true
}

/// After a failure in the middle of an in-place update: each element is its old or its new value.
fn check_half(what: &str, now: &[u64], old: &[u64], calls: &[Call], want: &[(u64, u64)]) -> bool {
    if !check_calls(what, calls, want, false) {
        return false;
    }
    if now.len() != old.len() {
        fail(format!("[torn] {}: after the failure the buffer has {} elements instead of {}", what, now.len(), old.len()));
        return false;
    }
    let mut used = vec![false; calls.len()];
    for p in 0..now.len() {
        if now[p] == old[p] {
            continue;
        }
        let hit = calls.iter().enumerate().position(|(i, c)| !used[i] && c.ret == now[p] && (c.a, c.b) == want[p]);
        match hit {
            Some(i) => used[i] = true,
            None => {
                fail(format!("[torn] {}: after the failure element {} is {:x}, neither its old value {:x} nor its new one; calls {:x?}", what, p, now[p], old[p], calls));
                return false;
            },
        }
    }
    true
}

fn ordered(what: &str, calls: &[Call], want: &[(u64, u64)], whole: bool) -> bool {
    for (i, c) in calls.iter().enumerate() {
        if i >= want.len() || (c.a, c.b) != want[i] {
            fail(format!("[order] {}: step {} folds ({:x}, {:x}), expected {:x?}", what, i, c.a, c.b, want.get(i)));
            return false;
        }
    }
    if whole && calls.len() != want.len() {
        fail(format!("[order] {}: {} steps for {} elements", what, calls.len(), want.len()));
        return false;
    }
    true
}

/// Only an injected failure may end an operation early.
fn ended<T>(what: &str, r: Called<T>, p: &Plan, calls: usize) -> Option<T> {
    match r {
        Called::Done(t) => {
            if p.crash_at.map_or(false, |k| k as usize <= calls) {
                fail(format!("[swallow] {}: the callback failed but the operation returned", what));
                return None;
            }
            Some(t)
        },
        Called::Crashed => None,
        Called::Panicked(m) => {
            fail(format!("[panic] {} panicked: {}", what, m));
            None
        },
    }
}

/// An accumulator that notices being dropped twice or never.
struct Tok<'a> {
    live: &'a Cell<i64>,
    n: u64,
}
impl<'a> Tok<'a> {
    fn new(live: &'a Cell<i64>, n: u64) -> Tok<'a> {
        live.set(live.get() + 1);
        Tok { live, n }
    }
}
impl Drop for Tok<'_> {
    fn drop(&mut self) { self.live.set(self.live.get() - 1) }
}

// --------------------------------------------------------------------------------------------
// Operations
// --------------------------------------------------------------------------------------------
/// What every client of a run shares: two operands of one kind, and a scalar.
struct Ground<B: Nest> {
    dims: Vec<usize>,
    x: B,
    y: B,
    fx: Vec<u64>,
    fy: Vec<u64>,
    s: B::F,
    name: &'static str,
}

fn draw_codes<F: Fld>(n: usize) -> Vec<F> {
    let mode = below(4);
    (0..n)
        .map(|i| match mode {
            0 => F::code(1 + (i as u32 % 60)),
            1 => F::code(1 + below(3)),
            2 => F::code(60 - (i as u32 % 60)),
            _ => {
                if chance(1, 3) {
                    F::odd(below(8))
                } else {
                    F::code(below(61))
                }
            },
        })
        .collect()
}

fn ground<B: Nest>(name: &'static str, dims: Vec<usize>) -> Ground<B> {
    let n: usize = dims.iter().product();
    let mut a = draw_codes::<B::F>(n).into_iter();
    let mut b = draw_codes::<B::F>(n).into_iter();
    let l = dims.first().copied().unwrap_or(0);
    let x = B::make(l, &mut || a.next().unwrap());
    let y = B::make(l, &mut || b.next().unwrap());
    let s = draw_codes::<B::F>(1)[0];
    Ground { fx: flat(&x), fy: flat(&y), x, y, s, dims, name }
}

impl<B: Nest> Ground<B> {
    fn intact(&self, what: &str) -> bool {
        if flat(&self.x) != self.fx || flat(&self.y) != self.fy {
            fail(format!("[operand] {} changed an operand it was only given to read", what));
            return false;
        }
        true
    }
    fn one(&self) -> Vec<(u64, u64)> { self.fx.iter().map(|x| (*x, 0)).collect() }
    fn two(&self) -> Vec<(u64, u64)> { self.fx.iter().zip(&self.fy).map(|(x, y)| (*x, *y)).collect() }
    fn right(&self) -> Vec<(u64, u64)> { self.fx.iter().map(|x| (*x, self.s.bits())).collect() }
    fn left(&self) -> Vec<(u64, u64)> { self.fx.iter().map(|x| (self.s.bits(), *x)).collect() }
}

type Out<B, A> = <<B as Buffer>::Class as Class<<B as Shaped>::Shape>>::Buffer<A>;

/// Operations every buffer has.
fn basic<B, A>(g: &Ground<B>, op: u32, p: &Plan, nest: &dyn Fn()) -> bool
where
    B: Nest + Buffer<Field = <B as Nest>::F> + ZipMap + ZipFold,
    A: Fld,
    IndexOf<B::Shape>: Coord,
    B::Shape: aegir::buffers::shapes::Broadcast<B::Shape>,
    Out<B, A>: Nest<F = A>,
    <B as ZipMap>::Output<A>: Nest<F = A>,
    <B as ZipMap>::Output<<B as Nest>::F>: Nest<F = <B as Nest>::F>,
{
    let n = g.fx.len();
    let cb = Cb::new(p, nest);
    let calls = || cb.calls.borrow().clone();
    let what = |o: &str| format!("{} of {} over {}", o, g.name, <B as Nest>::F::NAME);
    let shape = g.x.shape();
    match op {
        0 => {
            let w = what("map");
            let own = g.x.clone();
            let r = call(|| Buffer::map(own, |v| cb.hit::<A>(v.bits(), 0)));
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(o) => check_out(&w, &flat(&o), &calls(), &g.one()),
                None => check_calls(&w, &calls(), &g.one(), false),
            }
        },
        1 => {
            let w = what("map_ref");
            let r = call(|| g.x.map_ref(|v| cb.hit::<A>(v.bits(), 0)));
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(o) => check_out(&w, &flat(&o), &calls(), &g.one()),
                None => check_calls(&w, &calls(), &g.one(), false),
            }
        },
        2 => {
            let w = what("mutate");
            let mut own = g.x.clone();
            let r = call(|| own.mutate(|v| cb.hit(v.bits(), 0)));
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(()) => check_out(&w, &flat(&own), &calls(), &g.one()),
                None => check_half(&w, &flat(&own), &g.fx, &calls(), &g.one()) && again(&w, own, p),
            }
        },
        3 => {
            let w = what("fold");
            let live = Cell::new(0i64);
            let r = call(|| {
                g.x.fold(Tok::new(&live, 0), |acc: Tok, v| {
                    let k = acc.n;
                    if k as usize != cb.calls.borrow().len() {
                        fail(format!("[order] {}: the accumulator of step {} is handed to step {}", w, k, cb.calls.borrow().len()));
                    }
                    cb.hit::<u8>(v.bits(), 0);
                    Tok::new(&live, k + 1)
                })
            });
            let done = ended(&w, r, p, cb.n.get() as usize);
            let whole = done.is_some();
            if let Some(t) = &done {
                if t.n as usize != n {
                    fail(format!("[order] {}: returned the accumulator of step {} of {}", w, t.n, n));
                }
            }
            drop(done);
            if live.get() != 0 {
                fail(format!("[drop] {}: {} accumulators dropped too few times", w, live.get()));
            }
            ordered(&w, &calls(), &g.one(), whole)
        },
        4 => {
            let w = what("build");
            let r = call(|| B::Class::build(shape, |ix: IndexOf<B::Shape>| match offset(&g.dims, &ix.coords()) {
                Some(o) => cb.hit::<A>(o as u64, 1),
                None => {
                    fail(format!("[index] {}: the callback is given index {:?} of a buffer of dimensions {:?}", w, ix, g.dims));
                    A::zero()
                },
            }));
            let want: Vec<(u64, u64)> = (0..n as u64).map(|o| (o, 1)).collect();
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(o) => check_out(&w, &flat(&o), &calls(), &want),
                None => check_calls(&w, &calls(), &want, false),
            }
        },
        5 => {
            // from a list of positions
            let w = what("build_subset");
            let base = A::code(1 + below(60));
            let len = if n == 0 { 0 } else { below(12) as usize };
            let mut list: Vec<usize> = (0..len).map(|_| below(n as u32) as usize).collect();
            match below(4) {
                0 => list.sort(),
                1 => {
                    list.sort();
                    list.dedup()
                },
                2 => {
                    list.sort();
                    list.reverse()
                },
                _ => {},
            }
            // positions listed by the real cursor, filtered
            let cursor = chance(1, 4);
            if cursor {
                list.sort();
                list.dedup();
            }
            let stop = if p.crash_at.is_some() && chance(1, 2) { Some(below(len as u32 + 1) as usize) } else { None };
            let p = if stop.is_some() { Plan { crash_at: None, ..p.clone() } } else { p.clone() };
            let cb = Cb::new(&p, nest);
            let at = Cell::new(0usize);
            let src: Box<dyn Iterator<Item = usize> + '_> = if cursor {
                Box::new(shape.indices().filter_map(|ix| offset(&g.dims, &ix.coords())).filter(|o| list.contains(o)))
            } else {
                Box::new(list.iter().copied())
            };
            let stopped = Cell::new(false);
            let list_it = src.map(|o| {
                if Some(at.get()) == stop {
                    count("crash.list");
                    ev(62, at.get() as u64, 0, || format!("the list of positions fails at entry {}", at.get()));
                    stopped.set(true);
                    crash();
                }
                at.set(at.get() + 1);
                if p.preempt && chance(1, 4) {
                    count("preempt.list");
                    yield_now();
                }
                <IndexOf<B::Shape> as Coord>::from(&unoffset(&g.dims, o))
            });
            let r = call(|| {
                B::Class::build_subset(shape, base, list_it, |ix: IndexOf<B::Shape>| match offset(&g.dims, &ix.coords()) {
                    Some(o) => cb.hit::<A>(o as u64, 1),
                    None => {
                        fail(format!("[index] {}: the callback is given index {:?} of a buffer of dimensions {:?}", w, ix, g.dims));
                        A::zero()
                    },
                })
            });
            let calls = cb.calls.borrow().clone();
            // never for a position that is not listed, nor more often than it is listed
            let want: Vec<(u64, u64)> = list.iter().map(|o| (*o as u64, 1)).collect();
            if !check_calls(&w, &calls, &want, false) {
                return false;
            }
            if stopped.get() && matches!(r, Called::Done(_)) {
                fail(format!("[swallow] {}: the list failed but the operation returned", w));
                return false;
            }
            match ended(&w, r, &p, cb.n.get() as usize) {
                Some(o) => {
                    let o = flat(&o);
                    if o.len() != n {
                        fail(format!("[size] {}: {} elements instead of {}", w, o.len(), n));
                        return false;
                    }
                    for q in 0..n {
                        if list.contains(&q) {
                            if !calls.iter().any(|c| c.a == q as u64 && c.ret == o[q]) {
                                fail(format!("[subset] {}: position {} of list {:?} holds {:x}; calls {:x?}", w, q, list, o[q], calls));
                                return false;
                            }
                        } else if o[q] != base.bits() {
                            fail(format!("[subset] {}: position {}, not in list {:?}, holds {:x} instead of the base value {:x}", w, q, list, o[q], base.bits()));
                            return false;
                        }
                    }
                    true
                },
                None => true,
            }
        },
        6 => {
            // homogeneous and diagonal constructors
            let v = <B as Nest>::F::code(1 + below(60));
            let (w, r, want): (String, Called<B>, Box<dyn Fn(&[usize]) -> <B as Nest>::F>) = match below(5) {
                0 => (what("full"), call(|| B::Class::full(shape, v)), Box::new(move |_| v)),
                1 => (what("zeroes"), call(|| B::Class::zeroes::<<B as Nest>::F>(shape)), Box::new(|_| <B as Nest>::F::code(0))),
                2 => (what("ones"), call(|| B::Class::ones::<<B as Nest>::F>(shape)), Box::new(|_| <B as Nest>::F::code(1))),
                3 => (what("diagonal"), call(|| B::Class::diagonal(shape, v)), Box::new(move |c| if c.windows(2).all(|w| w[0] == w[1]) { v } else { <B as Nest>::F::code(0) })),
                _ => (what("identity"), call(|| B::Class::identity::<<B as Nest>::F>(shape)), Box::new(|c| <B as Nest>::F::code(c.windows(2).all(|w| w[0] == w[1]) as u32))),
            };
            let Some(o) = ended(&w, r, &Plan::default(), 0) else { return false };
            let want: Vec<u64> = (0..n).map(|o| want(&unoffset(&g.dims, o)).bits()).collect();
            if flat(&o) != want {
                fail(format!("[place] {} gives {:x?} instead of {:x?}", w, flat(&o), want));
                return false;
            }
            true
        },
        7 => {
            // reading element by element, and just outside
            let w = what("get");
            let mut c: Vec<usize> = g.dims.iter().map(|d| below(*d as u32 + 2) as usize).collect();
            if n > 0 && chance(1, 2) {
                c = unoffset(&g.dims, below(n as u32) as usize);
            }
            let ix = <IndexOf<B::Shape> as Coord>::from(&c);
            let want = offset(&g.dims, &c).map(|o| g.fx[o]);
            match call(|| g.x.get(ix).map(|v| v.bits())) {
                Called::Done(got) if got == want => {},
                o => {
                    fail(format!("[get] {}: get({:?}) = {:x?} instead of {:x?}", w, c, o, want));
                    return false;
                },
            }
            if let Some(v) = want {
                match call(|| g.x.get_unchecked(ix).bits()) {
                    Called::Done(got) if got == v => {},
                    o => {
                        fail(format!("[get] {}: get_unchecked({:?}) = {:x?} instead of {:x}", w, c, o, v));
                        return false;
                    },
                }
            }
            true
        },
        8 => {
            let w = what("sum");
            // keep the total small enough for every type
            let mut k = 0;
            let l = g.dims.first().copied().unwrap_or(0);
            let small = B::make(l, &mut || {
                k += 1;
                <B as Nest>::F::code(if k <= 24 { below(5) } else { 0 })
            });
            let mut total = 0.0;
            let mut vals = vec![];
            small.flat(&mut vals);
            for q in 0..n {
                total += small.get_unchecked(<IndexOf<B::Shape> as Coord>::from(&unoffset(&g.dims, q))).real();
            }
            match call(|| small.sum().real()) {
                Called::Done(t) if t == total => true,
                o => {
                    fail(format!("[sum] {}: the sum of {:x?} is {:?} instead of {}", w, vals, o, total));
                    false
                },
            }
        },
        9 => {
            let w = what("zip_map");
            let own = g.x.clone();
            let r = call(|| own.zip_map(&g.y, |a, b| cb.hit::<A>(a.bits(), b.bits())));
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(Ok(o)) => check_out(&w, &flat(&o), &calls(), &g.two()),
                Some(Err(e)) => refused(&w, e),
                None => check_calls(&w, &calls(), &g.two(), false),
            }
        },
        10 => {
            let w = what("zip_map_id");
            let own = g.x.clone();
            let r = call(|| own.zip_map_id(&g.y, |a, b| cb.hit(a.bits(), b.bits())));
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(Ok(o)) => check_out(&w, &flat(&o), &calls(), &g.two()),
                Some(Err(e)) => refused(&w, e),
                None => check_calls(&w, &calls(), &g.two(), false),
            }
        },
        11 => {
            let w = what("zip_fold");
            let r = call(|| {
                g.x.zip_fold(&g.y, <i64 as Fld>::code(0), |acc, (a, b)| {
                    if acc as usize != cb.calls.borrow().len() {
                        fail(format!("[order] {}: the accumulator of step {} is handed to step {}", w, acc, cb.calls.borrow().len()));
                    }
                    cb.hit::<u8>(a.bits(), b.bits());
                    acc + 1
                })
            });
            folded(&w, ended(&w, r, p, cb.n.get() as usize), &calls(), &g.two())
        },
        _ => {
            let w = what("zip_shape");
            let own = g.x.clone();
            match call(|| own.zip_shape(g.y.shape())) {
                Called::Done(Ok(o)) if flat(&o) == g.fx => true,
                Called::Done(Err(e)) => refused(&w, e),
                o => {
                    fail(format!("[place] {} gives {:x?} instead of {:x?}", w, o.map(|r| r.map(|o| flat(&o)).ok()), g.fx));
                    false
                },
            }
        },
    }
}

/// The same buffer, whatever state the failure left it in, can be used again.
fn again<B>(what: &str, mut b: B, _: &Plan) -> bool
where
    B: Nest + Buffer<Field = <B as Nest>::F>,
{
    count("retry.op");
    let now = flat(&b);
    let cb = Cb::new(&Plan::default(), &|| {});
    match call(|| b.mutate(|v| cb.hit(v.bits(), 0))) {
        Called::Done(()) => {
            let want: Vec<(u64, u64)> = now.iter().map(|x| (*x, 0)).collect();
            check_out(&format!("{} after a failure", what), &flat(&b), &cb.calls.borrow(), &want)
        },
        o => {
            fail(format!("[again] {}: the operation after the failure ended with {:?}", what, o));
            false
        },
    }
}

fn refused<E: std::fmt::Display>(what: &str, e: E) -> bool {
    fail(format!("[refused] {}: operands of the same shape are refused: {}", what, e));
    false
}

fn folded<E: std::fmt::Display>(w: &str, r: Option<Result<i64, E>>, calls: &[Call], want: &[(u64, u64)]) -> bool {
    match r {
        Some(Ok(k)) => {
            if k as usize != want.len() {
                fail(format!("[order] {}: returned the accumulator of step {} of {}", w, k, want.len()));
                return false;
            }
            ordered(w, calls, want, true)
        },
        Some(Err(e)) => refused(w, e),
        None => ordered(w, calls, want, false),
    }
}

/// A buffer with a scalar, both ways round.
fn mixed<B, A>(g: &Ground<B>, op: u32, p: &Plan, nest: &dyn Fn()) -> bool
where
    B: Nest + Buffer<Field = <B as Nest>::F> + ZipMap<<B as Nest>::F>,
    <B as Nest>::F: ZipMap<B>,
    A: Fld,
    B::Shape: aegir::buffers::shapes::Broadcast<S0>,
    S0: aegir::buffers::shapes::Broadcast<B::Shape>,
    <B as ZipMap<<B as Nest>::F>>::Output<A>: Nest<F = A>,
    <B as ZipMap<<B as Nest>::F>>::Output<<B as Nest>::F>: Nest<F = <B as Nest>::F>,
    <<B as Nest>::F as ZipMap<B>>::Output<A>: Nest<F = A>,
    <<B as Nest>::F as ZipMap<B>>::Output<<B as Nest>::F>: Nest<F = <B as Nest>::F>,
{
    let cb = Cb::new(p, nest);
    let calls = || cb.calls.borrow().clone();
    let what = |o: &str| format!("{} of {} over {}", o, g.name, <B as Nest>::F::NAME);
    let s = g.s;
    let end = |w: &str, o: Option<Option<Vec<u64>>>, want: &[(u64, u64)]| match o {
        Some(Some(o)) => check_out(w, &o, &calls(), want),
        Some(None) => {
            fail(format!("[refused] {}: a scalar operand is refused", w));
            false
        },
        None => check_calls(w, &calls(), want, false),
    };
    match op {
        0 => {
            let w = what("zip_map with a scalar");
            let own = g.x.clone();
            let r = call(|| ZipMap::<<B as Nest>::F>::zip_map(own, &s, |a, b| cb.hit::<A>(a.bits(), b.bits())).ok().map(|o| flat(&o)));
            end(&w, ended(&w, r, p, cb.n.get() as usize), &g.right())
        },
        1 => {
            let w = what("zip_map_id with a scalar");
            let own = g.x.clone();
            let r = call(|| ZipMap::<<B as Nest>::F>::zip_map_id(own, &s, |a, b| cb.hit(a.bits(), b.bits())).ok().map(|o| flat(&o)));
            end(&w, ended(&w, r, p, cb.n.get() as usize), &g.right())
        },
        2 => {
            let w = what("zip_map of a scalar");
            let r = call(|| ZipMap::<B>::zip_map(s, &g.x, |a, b| cb.hit::<A>(a.bits(), b.bits())).ok().map(|o| flat(&o)));
            end(&w, ended(&w, r, p, cb.n.get() as usize), &g.left())
        },
        3 => {
            let w = what("zip_map_id of a scalar");
            let r = call(|| ZipMap::<B>::zip_map_id(s, &g.x, |a, b| cb.hit(a.bits(), b.bits())).ok().map(|o| flat(&o)));
            end(&w, ended(&w, r, p, cb.n.get() as usize), &g.left())
        },
        _ => {
            let w = what("zip_shape with a scalar");
            let own = g.x.clone();
            let a = call(|| ZipMap::<<B as Nest>::F>::zip_shape(own, S0).ok().map(|o| flat(&o)));
            let b = call(|| ZipMap::<B>::zip_shape(s, g.x.shape()).ok().map(|o| flat(&o)));
            let full: Vec<u64> = g.fx.iter().map(|_| s.bits()).collect();
            if !matches!(&a, Called::Done(Some(o)) if *o == g.fx) || !matches!(&b, Called::Done(Some(o)) if *o == full) {
                fail(format!("[place] {}: {:x?} and {:x?}", w, a, b));
                return false;
            }
            true
        },
    }
}

/// In place, and folds with a scalar (arrays only).
fn inplace<B>(g: &Ground<B>, op: u32, p: &Plan, nest: &dyn Fn()) -> bool
where
    B: Nest + Buffer<Field = <B as Nest>::F> + ZipMut + ZipMut<<B as Nest>::F> + ZipFold<<B as Nest>::F>,
{
    let cb = Cb::new(p, nest);
    let calls = || cb.calls.borrow().clone();
    let what = |o: &str| format!("{} of {} over {}", o, g.name, <B as Nest>::F::NAME);
    match op {
        0 | 1 => {
            let (w, want) = if op == 0 { (what("zip_mut"), g.two()) } else { (what("zip_mut with a scalar"), g.right()) };
            let mut own = g.x.clone();
            let r = call(|| {
                if op == 0 {
                    ZipMut::zip_mut(&mut own, &g.y, |a, b| cb.hit(a.bits(), b.bits())).is_ok()
                } else {
                    ZipMut::zip_mut(&mut own, &g.s, |a, b| cb.hit(a.bits(), b.bits())).is_ok()
                }
            });
            match ended(&w, r, p, cb.n.get() as usize) {
                Some(true) => check_out(&w, &flat(&own), &calls(), &want),
                Some(false) => refused(&w, "error"),
                None => check_half(&w, &flat(&own), &g.fx, &calls(), &want) && again(&w, own, p),
            }
        },
        _ => {
            let w = what("zip_fold with a scalar");
            let r = call(|| {
                ZipFold::zip_fold(&g.x, &g.s, <i64 as Fld>::code(0), |acc, (a, b)| {
                    if acc as usize != cb.calls.borrow().len() {
                        fail(format!("[order] {}: the accumulator of step {} is handed to step {}", w, acc, cb.calls.borrow().len()));
                    }
                    cb.hit::<u8>(a.bits(), b.bits());
                    acc + 1
                })
            });
            folded(&w, ended(&w, r, p, cb.n.get() as usize), &calls(), &g.right())
        },
    }
}

/// Vectors of different lengths are refused, whole, by every pairwise operation.
fn uneven<F: Fld + Nest<F = F>>(g: &Ground<Vec<F>>) -> bool
where
    Vec<F>: Nest<F = F>,
{
    let n = g.fx.len();
    let mut m = below(n as u32 + 3) as usize;
    if m == n {
        m = n + 1;
    }
    let z: Vec<F> = draw_codes::<F>(m);
    let before = flat(&z);
    let own = g.x.clone();
    let op = below(4);
    let r = call(|| match op {
        0 => own.zip_map(&z, |a, _| a).map(|_| ()).map_err(|e| (e.left, e.right)),
        1 => own.zip_map_id(&z, |a, _| a).map(|_| ()).map_err(|e| (e.left, e.right)),
        2 => own.zip_fold(&z, 0i64, |a, _| a).map(|_| ()).map_err(|e| (e.left, e.right)),
        _ => ZipMap::<Vec<F>>::zip_shape(own, z.shape()).map(|_| ()).map_err(|e| (e.left, e.right)),
    });
    count("resize.operand");
    if flat(&z) != before {
        fail("[operand] a refused operation changed its operand");
    }
    match r {
        Called::Done(Err((l, r))) if l == SDynamic([n]) && r == SDynamic([m]) => true,
        o => {
            fail(format!("[uneven] pairwise operation {} on vectors of {} and {} elements over {}: {:?}", op, n, m, F::NAME, o));
            false
        },
    }
}

// --------------------------------------------------------------------------------------------
// Runs
// --------------------------------------------------------------------------------------------
type Ops<B> = fn(&Ground<B>, u32, &Plan, &dyn Fn()) -> bool;

fn clients<B>(name: &'static str, dims: Vec<usize>, groups: &[(u32, Ops<B>)])
where
    B: Nest + 'static,
    <B as Nest>::F: Fld,
{
    let g: Ground<B> = ground(name, dims);
    fingerprint(crate::sim::hash_str(name) ^ crate::sim::hash_str(<B::F as Fld>::NAME));
    sample(|| format!("{} over {}: {:x?}, {:x?}", name, <B::F as Fld>::NAME, g.fx, g.fy));
    let step = |who: usize, depth: u32, inner: &dyn Fn()| {
        let k = below(groups.iter().map(|x| x.0).sum());
        let (mut op, mut gi) = (k, 0);
        while op >= groups[gi].0 {
            op -= groups[gi].0;
            gi += 1;
        }
        let p = plan(g.fx.len(), depth, true);
        ev(63, k as u64, who as u64, || format!("client {}: {} op {}.{} {:?}", who, g.name, gi, op, p));
        fingerprint(mix(mix(k as u64, who as u64), mix(p.crash_at.unwrap_or(0) as u64, p.preempt as u64 | (p.nest_at.unwrap_or(0) as u64) << 1)));
        if p.crash_at.is_some() || p.preempt || p.nest_at.is_some() {
            nontrivial();
        }
        let ok = (groups[gi].1)(&g, op, &p, inner);
        ok && g.intact("an operation")
    };
    let nothing = || {};
    let nested = || {
        if !failed() {
            step(9, 1, &nothing);
        }
    };
    let nclients = range(1, 3) as usize;
    let mut tasks: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for c in 0..nclients {
        let nops = range(1, 5);
        let (step, nested) = (&step, &nested);
        tasks.push(Box::new(move || {
            for _ in 0..nops {
                if failed() {
                    return;
                }
                if !step(c, 0, nested) {
                    return;
                }
                yield_now();
            }
        }));
    }
    if tasks.len() == 1 {
        (tasks.pop().unwrap())()
    } else {
        run_tasks(4, tasks)
    }
}

macro_rules! arr {
    ($name:expr, $t:ty, $a:ty, $dims:expr) => {
        clients::<$t>($name, $dims, &[(13, basic::<$t, $a>), (5, mixed::<$t, $a>), (3, inplace::<$t>)])
    };
}
macro_rules! arrays {
    ($f:ident, $a:ident, $k:expr) => {
        match $k {
            0 => arr!("[F; 3]", [$f; 3], $a, vec![3]),
            1 => arr!("[[F; 3]; 2]", [[$f; 3]; 2], $a, vec![2, 3]),
            2 => arr!("[[F; 2]; 2]", [[$f; 2]; 2], $a, vec![2, 2]),
            3 => arr!("[[[F; 4]; 3]; 2]", [[[$f; 4]; 3]; 2], $a, vec![2, 3, 4]),
            4 => arr!("[[[[F; 3]; 1]; 2]; 2]", [[[[$f; 3]; 1]; 2]; 2], $a, vec![2, 2, 1, 3]),
            5 => arr!("[[[[[F; 2]; 1]; 3]; 1]; 2]", [[[[[$f; 2]; 1]; 3]; 1]; 2], $a, vec![2, 1, 3, 1, 2]),
            6 => arr!("[[[[[F; 2]; 2]; 2]; 2]; 2]", [[[[[$f; 2]; 2]; 2]; 2]; 2], $a, vec![2, 2, 2, 2, 2]),
            7 => arr!("[F; 1]", [$f; 1], $a, vec![1]),
            8 => arr!("[F; 0]", [$f; 0], $a, vec![0]),
            9 => arr!("[[F; 0]; 3]", [[$f; 0]; 3], $a, vec![3, 0]),
            10 => arr!("[[F; 4]; 3]", [[$f; 4]; 3], $a, vec![3, 4]),
            11 => arr!("[[[F; 2]; 0]; 2]", [[[$f; 2]; 0]; 2], $a, vec![2, 0, 2]),
            12 => arr!("[[[F; 3]; 3]; 3]", [[[$f; 3]; 3]; 3], $a, vec![3, 3, 3]),
            13 => arr!("[[[[F; 2]; 2]; 2]; 2]", [[[[$f; 2]; 2]; 2]; 2], $a, vec![2, 2, 2, 2]),
            14 => clients::<($f, $f)>("(F, F)", vec![2], &[(13, basic::<($f, $f), $a>)]),
            15 => clients::<$f>("F", vec![], &[(13, basic::<$f, $a>)]),
            16 => {
                let n = range(0, 6) as usize;
                clients::<Grid<$f>>("Grid<F>", vec![n, grid_cols(n)], &[(13, basic::<Grid<$f>, $a>)])
            },
            17 => arr!("[F; 13]", [$f; 13], $a, vec![13]),
            18 => arr!("[[F; 9]; 2]", [[$f; 9]; 2], $a, vec![2, 9]),
            _ => {
                let n = long();
                clients::<Vec<$f>>("Vec<F>", vec![n], &[(13, basic::<Vec<$f>, $a>), (5, mixed::<Vec<$f>, $a>), (1, |g, _, _, _| uneven::<$f>(g))])
            },
        }
    };
}
macro_rules! flats {
    ($($f:ident $a:ident),*; $k:expr, $n:expr) => {{
        let k = $k;
        let mut i = 0;
        $(
            if i == k {
                match $n {
                    0 => clients::<$f>("F", vec![], &[(13, basic::<$f, $a>)]),
                    1 => clients::<($f, $f)>("(F, F)", vec![2], &[(13, basic::<($f, $f), $a>)]),
                    2 => arr!("[F; 5]", [$f; 5], $a, vec![5]),
                    _ => {
                        let n = long();
                        clients::<Vec<$f>>("Vec<F>", vec![n], &[(13, basic::<Vec<$f>, $a>), (5, mixed::<Vec<$f>, $a>), (1, |g, _, _, _| uneven::<$f>(g))])
                    },
                }
            }
            i += 1;
        )*
        let _ = i;
    }};
}

/// Length of a run-time vector.
fn long() -> usize {
    if !chance(1, 12) {
        range(0, 17) as usize
    } else if !chance(1, 12) {
        range(18, 70) as usize
    } else {
        range(71, 700) as usize
    }
}

fn run() {
    let _ = (S1::<1>, S2::<1, 1>, S3::<1, 1, 1>, S4::<1, 1, 1, 1>, S5::<1, 1, 1, 1, 1>, Arrays, Vecs, Tuples, Scalars);
    let before = alloc::stats();
    match below(4) {
        0 => arrays!(f64, f64, below(20)),
        1 => arrays!(SimF, u8, below(20)),
        2 => arrays!(i8, f32, below(20)),
        _ => flats!(u8 f64, u16 i8, u32 u8, u64 f32, usize f64, i8 i8, i16 u64, i32 SimF, i64 u8, isize usize, f32 i64, f64 SimF, SimF SimF; below(13), below(4)),
    }
    if failed() {
        return;
    }
    let after = alloc::stats();
    if after.0 != before.0 || after.1 != before.1 {
        fail(format!("[leak] the operations of this run leave {} blocks ({} bytes) behind", after.0 - before.0, after.1 - before.1));
    }
    if after.2 != before.2 {
        fail("[free] the operations of this run free memory twice or wrongly");
    }
}
