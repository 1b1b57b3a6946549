//! C16: programs of dual numbers carry the gradient the rules of differentiation give.
use crate::{
    alloc::{self, harness},
    jac::D1,
    orch::Prop,
    refer::{e_add, e_mul, e_neg, ex, E},
    sim::*,
    store::{Buf, Dyn, KBuf, Tensor, F, R3},
};
use aegir::{dual, Dual};
use std::{cell::RefCell, rc::Rc};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        run,
        rule: "One run executes a random program of dual-number operations (by value, by reference, with plain values, constants, \
               variables, conjugates, fan-out of one register into several) over shared registers, by 1-3 interleaved clients; the \
               pairs are scalar/scalar, scalar/vector and vector/vector; starting pairs (constant, variable, given, conjugate) also over every other kind of buffer and any value, infinite and NaN included. Operations are cut short at drawn arithmetic steps and \
               retried. Every result is compared with dual arithmetic of our own, and at the end the whole program with the exact \
               derivative of what it computes. Non-trivial: an operation was cut short or interleaved; distinct: by program.",
        real: "aegir::Dual, the dual! macro, and the buffer classes behind constants and variables",
        stub: "the number type and the vector type (a user's own buffer with operators)",
        quick: 2_000_000,
        thorough: 60_000_000,
        batch: 2000,
    }
}

// The vector type is a user's buffer that has operators of its own.
macro_rules! vector_ops {
    ($($tr:ident $f:ident),*) => {$(
        impl std::ops::$tr for D1 {
            type Output = D1;
            fn $f(mut self, o: D1) -> D1 {
                for (x, y) in self.data.iter_mut().zip(&o.data) {
                    *x = std::ops::$tr::$f(*x, *y);
                }
                self
            }
        }
        impl<'a> std::ops::$tr<&'a D1> for D1 {
            type Output = D1;
            fn $f(mut self, o: &'a D1) -> D1 {
                for (x, y) in self.data.iter_mut().zip(&o.data) {
                    *x = std::ops::$tr::$f(*x, *y);
                }
                self
            }
        }
    )*};
}
vector_ops!(Add add, Sub sub, Mul mul);
impl std::ops::Neg for D1 {
    type Output = D1;
    fn neg(mut self) -> D1 {
        for x in self.data.iter_mut() {
            *x = -*x;
        }
        self
    }
}
impl std::ops::Mul<F> for D1 {
    type Output = D1;
    fn mul(mut self, o: F) -> D1 {
        for x in self.data.iter_mut() {
            *x = *x * o;
        }
        self
    }
}
impl<'a> std::ops::Mul<&'a F> for D1 {
    type Output = D1;
    fn mul(self, o: &'a F) -> D1 { self * *o }
}
impl<'a> std::ops::Mul<&'a D1> for F {
    type Output = D1;
    fn mul(self, o: &'a D1) -> D1 { Dyn { dims: o.dims, data: o.data.iter().map(|y| self * *y).collect() } }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Neg,
    Conj,
    Pair,
    AddD,
    AddR,
    SubD,
    SubR,
    MulD,
    MulR,
    AddV,
    AddVr,
    SubV,
    SubVr,
    MulV,
    MulVr,
    Constant,
    Macro,
    Variable,
}
use Op::*;
const OPS: [Op; 18] = [Neg, Conj, Pair, AddD, AddR, SubD, SubR, MulD, MulR, AddV, AddVr, SubV, SubVr, MulV, MulVr, Constant, Macro, Variable];

impl Op {
    fn plain(self) -> bool { matches!(self, AddV | AddVr | SubV | SubVr | MulV | MulVr | Constant | Macro | Variable) }
    fn unary(self) -> bool { matches!(self, Neg | Conj | Pair) }
}

/// A pair of types a program may run over.
trait World: 'static {
    type V: KBuf;
    type A: KBuf;
    const NAME: &'static str;
    fn has(op: Op) -> bool;
    fn apply(op: Op, x: Dual<Self::V, Self::A>, y: &Dual<Self::V, Self::A>, p: &Self::V) -> Dual<Self::V, Self::A>;
}

macro_rules! world {
    ($n:ident $v:ty, $a:ty; plain $plain:ident; own $own:ident) => {
        struct $n;
        impl World for $n {
            type V = $v;
            type A = $a;
            const NAME: &'static str = stringify!($n);
            fn has(op: Op) -> bool {
                match op {
                    MulV | MulVr => $plain,
                    Constant | Macro | Variable => $own,
                    _ => true,
                }
            }
            fn apply(op: Op, x: Dual<$v, $a>, y: &Dual<$v, $a>, p: &$v) -> Dual<$v, $a> {
                match op {
                    Neg => -x,
                    Conj => x.conj(),
                    Pair => Dual::from((x.value, x.adjoint)),
                    AddD => x + y.clone(),
                    AddR => x + y,
                    SubD => x - y.clone(),
                    SubR => x - y,
                    MulD => x * y.clone(),
                    MulR => x * y,
                    AddV => x + p.clone(),
                    AddVr => x + p,
                    SubV => x - p.clone(),
                    SubVr => x - p,
                    MulV => world!(@plain $plain, x * p.clone()),
                    MulVr => world!(@plain $plain, x * p),
                    Constant => world!(@plain $own, Dual::constant(p.clone())),
                    Macro => world!(@plain $own, dual!(p.clone())),
                    Variable => world!(@plain $own, Dual::variable(p.clone())),
                }
            }
        }
    };
    (@plain true, $e:expr) => { $e };
    (@plain false, $e:expr) => { unreachable!() };
}
world!(ScalarScalar F, F; plain true; own true);
world!(ScalarVector F, D1; plain true; own false);
world!(VectorVector D1, D1; plain false; own true);

/// A dual number of our own.
#[derive(Clone, Debug)]
struct Mine {
    v: Vec<E>,
    a: Vec<E>,
}

fn lift(t: &Tensor) -> Vec<E> { t.data.iter().map(|x| ex(*x)).collect() }
fn zip(x: &[E], y: &[E], f: impl Fn(E, E) -> E) -> Vec<E> {
    let n = if x.is_empty() || y.is_empty() { 0 } else { x.len().max(y.len()) };
    (0..n).map(|i| f(x[i % x.len()], y[i % y.len()])).collect()
}
fn sub(x: E, y: E) -> E { e_add(x, e_neg(y)) }

fn mine(op: Op, x: &Mine, y: &Mine, p: &[E]) -> Mine {
    let n = x.a.len();
    match op {
        Neg => Mine { v: x.v.iter().map(|e| e_neg(*e)).collect(), a: x.a.iter().map(|e| e_neg(*e)).collect() },
        Conj => Mine { v: x.v.clone(), a: x.a.iter().map(|e| e_neg(*e)).collect() },
        Pair => x.clone(),
        AddD | AddR => Mine { v: zip(&x.v, &y.v, e_add), a: zip(&x.a, &y.a, e_add) },
        SubD | SubR => Mine { v: zip(&x.v, &y.v, sub), a: zip(&x.a, &y.a, sub) },
        MulD | MulR => Mine { v: zip(&x.v, &y.v, e_mul), a: zip(&zip(&x.a, &y.v, e_mul), &zip(&y.a, &x.v, e_mul), e_add) },
        AddV | AddVr => Mine { v: zip(&x.v, p, e_add), a: x.a.clone() },
        SubV | SubVr => Mine { v: zip(&x.v, p, sub), a: x.a.clone() },
        MulV | MulVr => Mine { v: zip(&x.v, p, e_mul), a: zip(&x.a, p, e_mul) },
        Constant | Macro => Mine { v: p.to_vec(), a: vec![ex(0.0); n] },
        Variable => Mine { v: p.to_vec(), a: vec![ex(1.0); n] },
    }
}

fn off(got: &Tensor, want: &[E]) -> Option<String> {
    if got.data.len() != want.len() {
        return Some(format!("{} elements, expected {}", got.data.len(), want.len()));
    }
    for (g, w) in got.data.iter().zip(want) {
        if !((g - w.v).abs() <= 16.0 * w.e + 1e-12 * w.v.abs() + 1e-300) {
            return Some(format!("{:?}, expected {:?} (+-{:e})", g, w.v, w.e));
        }
    }
    None
}

struct Reg<W: World> {
    d: Dual<W::V, W::A>,
    /// what the whole program says it should be
    m: Mine,
}

/// Sizes of a run-time shape.
fn free(rank: usize) -> Vec<usize> { (0..rank).map(|_| [2, 1, 3, 0][below(4) as usize]).collect() }

fn run() {
    match below(4) {
        0 => program::<ScalarScalar>(),
        1 => program::<ScalarVector>(),
        2 => program::<VectorVector>(),
        _ => match below(9) {
            0 => start::<F>(&[]),
            1 => start::<[F; 3]>(&[3]),
            2 => start::<[[F; 2]; 2]>(&[2, 2]),
            3 => start::<[[F; 3]; 2]>(&[2, 3]),
            4 => start::<R3>(&[2, 3, 2]),
            5 => start::<Vec<F>>(&free(1)),
            6 => start::<(F, F)>(&[2]),
            7 => start::<Dyn<F, 2>>(&free(2)),
            _ => start::<D1>(&free(1)),
        },
    }
}

/// What a program starts from, over every kind of buffer and any value whatsoever.
fn start<B: KBuf>(dims: &[usize]) {
    let draw = || {
        let c: usize = dims.iter().product();
        let value = || match below(8) {
            0 => pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 5e-324, -0.0]),
            _ => pick(&[1.0, -1.0, 0.5, 2.0, 0.0, -0.75, 3.0]) + 0.125 * below(8) as f64,
        };
        Tensor { dims: dims.to_vec(), data: (0..c).map(|_| value()).collect() }
    };
    fingerprint(hash_str(std::any::type_name::<B>()));
    let (v, a) = harness(|| (draw(), draw()));
    for _ in 0..range(1, 4) {
        let how = below(5);
        fingerprint(how as u64);
        let mut tries = 0;
        let d = loop {
            let (bv, ba) = (B::from_tensor(&v), B::from_tensor(&a));
            if tries < 2 && chance(1, 3) {
                arm(range(1, 6) as u64, Inject::Crash);
            }
            let d = call(|| match how {
                0 => Dual::constant(bv),
                1 => Dual::variable(bv),
                2 => dual!(bv),
                3 => dual!(bv, ba),
                _ => Dual::from((bv, ba)).conj(),
            });
            disarm();
            match d {
                Called::Done(d) => break d,
                Called::Crashed => {
                    count("crash.op");
                    nontrivial();
                    tries += 1;
                },
                Called::Panicked(m) => return fail(format!("[panic] start {} of {:?} panicked: {}", how, v, m)),
            }
        };
        let (tv, ta) = harness(|| (d.value.to_tensor(), d.adjoint.to_tensor()));
        ev(91, how as u64, sim_hash(&(tv.clone(), ta.clone())), || format!("start {} of {:?}: {:?}", how, v, ta));
        let want = |i: usize| match how {
            0 | 2 => 0.0,
            1 => 1.0,
            3 => a.data[i],
            _ => -a.data[i],
        };
        let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
        if tv.dims != v.dims || ta.dims != v.dims {
            return fail(format!("[shape] start {} of {:?}: value {:?}, gradient {:?}", how, v, tv.dims, ta.dims));
        }
        if !tv.same_bits(&v) {
            return fail(format!("[value] start {} of {:?}: the value became {:?}", how, v, tv));
        }
        if let Some(i) = (0..ta.data.len()).find(|i| !same(ta.data[*i], want(*i))) {
            return fail(format!("[start] {} of {:?} (gradient {:?}): gradient {:?}, expected {:?} at {}", ["constant", "variable", "dual!", "dual! with gradient", "conjugate"][how as usize], v, a, ta, want(i), i));
        }
    }
}

fn show<W: World>(d: &Dual<W::V, W::A>) -> (Tensor, Tensor) { harness(|| (d.value.to_tensor(), d.adjoint.to_tensor())) }

fn program<W: World>() {
    let n = [2, 1, 3, 0, 5][below(5) as usize];
    let number = || pick(&[1.0, -1.0, 0.5, 2.0, 0.0, -0.75, 3.0, 1e-3]) + 0.125 * below(8) as f64;
    let draw = |k: crate::store::Kind| {
        let dims = if k == crate::store::Kind::S { vec![] } else { vec![n] };
        let c: usize = dims.iter().product();
        Tensor { data: (0..c).map(|_| number()).collect(), dims }
    };
    let reg = || {
        let (v, a) = (draw(W::V::KIND), draw(W::A::KIND));
        let d = match below(3) {
            0 => dual!(W::V::from_tensor(&v), W::A::from_tensor(&a)),
            1 => Dual::from((W::V::from_tensor(&v), W::A::from_tensor(&a))),
            _ => Dual { value: W::V::from_tensor(&v), adjoint: W::A::from_tensor(&a) },
        };
        let m = harness(|| Mine { v: lift(&v), a: lift(&a) });
        Reg::<W> { d, m }
    };
    let stats0 = alloc::stats();
    {
        let regs: Rc<RefCell<Vec<Reg<W>>>> = Rc::new(RefCell::new((0..3).map(|_| reg()).collect()));
        fingerprint(hash_str(W::NAME) ^ n as u64);
        let clients = range(1, 3) as usize;
        let cuts = chance(1, 2);
        let client = |id: usize| {
            let regs = regs.clone();
            move || {
                for _ in 0..range(1, 8) {
                    if failed() {
                        return;
                    }
                    let op = OPS[below(OPS.len() as u32) as usize];
                    if !W::has(op) {
                        continue;
                    }
                    let (i, j, k) = (below(3) as usize, below(3) as usize, below(3) as usize);
                    fingerprint((op as u64) << 8 | (i * 9 + j * 3 + k) as u64);
                    let (x, y, mx, my) = {
                        let r = regs.borrow();
                        (r[i].d.clone(), r[j].d.clone(), harness(|| r[i].m.clone()), harness(|| r[j].m.clone()))
                    };
                    let (tx, ty) = (show::<W>(&x), show::<W>(&y));
                    let tp = harness(|| draw(W::V::KIND));
                    let p = W::V::from_tensor(&tp);
                    let step = harness(|| {
                        if op.plain() {
                            format!("{:?} of r{} and {:?}", op, i, tp.data)
                        } else if op.unary() {
                            format!("{:?} of r{}", op, i)
                        } else {
                            format!("{:?} of r{} and r{}", op, i, j)
                        }
                    });
                    harness(|| sample(|| step.clone()));
                    let mut tries = 0;
                    let z = loop {
                        let cut = cuts && tries < 2 && chance(1, 3);
                        if cut {
                            arm(range(1, 2 + 3 * n as i64) as u64, Inject::Crash);
                        }
                        if chance(1, 4) {
                            arm(range(1, 4) as u64, Inject::Yield);
                        }
                        let before = alloc::stats();
                        let z = call(|| W::apply(op, x.clone(), &y, &p));
                        disarm();
                        let after = alloc::stats();
                        match z {
                            Called::Done(z) => break z,
                            Called::Crashed => {
                                count("crash.op");
                                nontrivial();
                                tries += 1;
                                if clients == 1 && (after.0 != before.0 || after.2 != before.2) {
                                    return fail(format!("[leak] {}: {} cut short: {} blocks more, {} bad frees", W::NAME, step, after.0 - before.0, after.2 - before.2));
                                }
                                let (sy, sp) = (show::<W>(&y), harness(|| p.to_tensor()));
                                if !sy.0.same_bits(&ty.0) || !sy.1.same_bits(&ty.1) || !sp.same_bits(&tp) {
                                    return fail(format!("[operand] {}: {} cut short changed its operand to {:?}", W::NAME, step, sy));
                                }
                            },
                            Called::Panicked(m) => return fail(format!("[panic] {}: {} panicked: {}", W::NAME, step, m)),
                        }
                    };
                    if tries > 0 {
                        count("retry.op");
                    }
                    let tz = show::<W>(&z);
                    ev(90, id as u64, sim_hash(&tz), || format!("client {}: r{} = {} = {:?} with gradient {:?}", id, k, step, tz.0, tz.1));
                    // the step itself, from what its operands held
                    let (here, sofar) = harness(|| {
                        let own = |t: &(Tensor, Tensor)| Mine { v: lift(&t.0), a: lift(&t.1) };
                        let lp = lift(&tp);
                        (mine(op, &own(&tx), &own(&ty), &lp), mine(op, &mx, &my, &lp))
                    });
                    if let Some(m) = harness(|| off(&tz.0, &here.v).map(|m| format!("value {}", m)).or_else(|| off(&tz.1, &here.a).map(|m| format!("gradient {}", m)))) {
                        return fail(format!("[step] {}: {} with x = {:?}, y = {:?}: {}", W::NAME, step, tx, ty, m));
                    }
                    // and the program so far
                    if let Some(m) = harness(|| off(&tz.0, &sofar.v).map(|m| format!("value {}", m)).or_else(|| off(&tz.1, &sofar.a).map(|m| format!("gradient {}", m)))) {
                        return fail(format!("[program] {}: after {}: {}", W::NAME, step, m));
                    }
                    let big = tz.0.data.iter().chain(&tz.1.data).any(|v| v.abs() > 1e4);
                    let new = if big { reg() } else { Reg { d: z, m: sofar } };
                    let old = std::mem::replace(&mut regs.borrow_mut()[k], new);
                    let Reg { d, m } = old;
                    drop(d);
                    harness(move || drop(m));
                    harness(move || drop((step, mx, my, tx, ty, tp, tz)));
                }
            }
        };
        if clients == 1 {
            client(0)();
        } else {
            nontrivial();
            run_tasks(2, (0..clients).map(|c| Box::new(client(c)) as Box<dyn FnOnce()>).collect());
        }
        if failed() {
            return;
        }
        let last = Rc::try_unwrap(regs).ok().expect("harness: registers shared").into_inner();
        for Reg { d, m } in last {
            drop(d);
            harness(move || drop(m));
        }
    }
    let stats1 = alloc::stats();
    if stats1.2 != stats0.2 {
        fail(format!("[drop] {}: {} blocks dropped twice", W::NAME, stats1.2 - stats0.2));
    }
}

fn sim_hash(t: &(Tensor, Tensor)) -> u64 { mix(t.0.hash(), t.1.hash()) }
