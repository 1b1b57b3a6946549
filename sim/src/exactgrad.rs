//! Gradients over the library's own number types and over longer arrays, where every step is exact: first and second
//! order, in every form a gradient can be asked for, with reads refused now and then.
use crate::{
    exact::{Cx, Kind, Num, L, XA, XS},
    sim::*,
};
use aegir::{
    buffers::{Buffer, Spec},
    meta::{Constant, Variable},
    ops::*,
    Contains, Differentiable, Function, Node,
};
use std::ops::{Add as PAdd, Mul as PMul, Neg as PNeg, Sub as PSub};

/// A value with its derivatives by x, y and z, in whole numbers: what a scalar expression should give.
#[derive(Clone, Copy, Debug)]
struct D {
    v: i128,
    d: [i128; 3],
}
fn each(f: impl Fn(usize) -> i128) -> [i128; 3] { [f(0), f(1), f(2)] }
impl PAdd for D {
    type Output = D;
    fn add(self, o: D) -> D { D { v: self.v + o.v, d: each(|i| self.d[i] + o.d[i]) } }
}
impl PSub for D {
    type Output = D;
    fn sub(self, o: D) -> D { D { v: self.v - o.v, d: each(|i| self.d[i] - o.d[i]) } }
}
impl PMul for D {
    type Output = D;
    fn mul(self, o: D) -> D { D { v: self.v * o.v, d: each(|i| self.d[i] * o.v + self.v * o.d[i]) } }
}
impl PNeg for D {
    type Output = D;
    fn neg(self) -> D { D { v: -self.v, d: each(|i| -self.d[i]) } }
}
fn con(v: i128) -> D { D { v, d: [0; 3] } }

#[derive(Clone, Copy, Debug)]
enum How {
    Eval,
    Tree,
    TreeSpec,
    Dual,
}
const HOWS: [How; 4] = [How::Eval, How::Tree, How::TreeSpec, How::Dual];

/// One call, with or without a refused read; the outcome is compared with what it should be.
fn ask<P: Num>(c: &mut Cx<P>, what: &dyn Fn() -> String, want: &[i128], f: impl FnOnce(&mut Cx<P>) -> Result<Vec<P>, String>) {
    if failed() {
        return;
    }
    let refuse = chance(1, 6);
    c.refuse(if refuse { range(1, 6) as u32 } else { 0 });
    let got = call(|| f(c));
    let refused = c.refused();
    c.refuse(0);
    match got {
        Called::Done(Ok(l)) => {
            ev(96, l.len() as u64, 0, || format!("{} = {:?}", what(), l));
            if l.len() != want.len() || l.iter().zip(want).any(|(g, w)| g.back() != Some(*w)) {
                fail(format!("[exact] {} {} = {:?}, expected {:?}", P::NAME, what(), l, want));
            }
            nontrivial();
        },
        Called::Done(Err(_)) if refused => {},
        o => fail(format!("[exact] {} {} ended with {:?}", P::NAME, what(), o)),
    }
}

fn check<P, N>(name: &str, n: N, c: &mut Cx<P>, want: D)
where
    P: Num,
    N: Function<Cx<P>, Value = P> + Differentiable<XS> + Contains<XS>,
    N::Adjoint: Function<Cx<P>, Value = P>,
{
    fingerprint(hash_str(name));
    for _ in 0..range(1, 4) {
        let t = below(4) as u8;
        let g = if t < 3 { want.d[t as usize] } else { 0 };
        let t = XS(if t < 3 { t } else { 7 });
        let how = HOWS[below(4) as usize];
        let text = || format!("{} of {} by {:?}", name, format_args!("{:?}", how), t);
        match how {
            How::Eval => ask(c, &text, &[g], |c| n.evaluate_adjoint(t, c).map(|v| vec![v]).map_err(|e| format!("{:?}", e))),
            How::Tree => ask(c, &text, &[g], |c| n.adjoint(t).evaluate(c).map(|v| vec![v]).map_err(|e| format!("{:?}", e))),
            How::TreeSpec => ask(c, &text, &[g], |c| n.adjoint(t).evaluate_spec(c).map(|v| vec![v.unwrap()]).map_err(|e| format!("{:?}", e))),
            How::Dual => ask(c, &text, &[want.v, g], |c| {
                n.evaluate_dual(t, c).map(|d| vec![d.value, d.adjoint]).map_err(|e| format!("{:?}", e))
            }),
        }
        if failed() {
            return;
        }
    }
}

macro_rules! cases {
    ($m:ident, $p:ty $(, $signed:ident)?) => {
        mod $m {
            use super::*;
            type P = $p;
        /// x x y and x y z, twice.
        fn second(c: &mut Cx<P>, x: D, y: D, z: D) {
            let v = |i: u8| Variable(XS(i));
            let a = Mul(Mul(v(0), v(0)), v(1));
            let b = Mul(Mul(v(0), v(1)), v(2));
            let h = [[2 * y.v, 2 * x.v, 0], [2 * x.v, 0, 0], [0, 0, 0]];
            let k = [[0, z.v, y.v], [z.v, 0, x.v], [y.v, x.v, 0]];
            for _ in 0..3 {
                let (i, j) = (below(3), below(3));
                let (s, t) = (XS(i as u8), XS(j as u8));
                let spec = chance(1, 2);
                let text = || format!("second derivative by {:?}, {:?}", s, t);
                ask(c, &text, &[h[i as usize][j as usize]], |c| {
                    let n = a.adjoint(s).adjoint(t);
                    let r = if spec { n.evaluate_spec(c).map(|x| x.unwrap()) } else { n.evaluate(c) };
                    r.map(|v| vec![v]).map_err(|e| format!("{:?}", e))
                });
                ask(c, &text, &[k[i as usize][j as usize]], |c| {
                    let n = b.adjoint(s);
                    let r = if spec { n.adjoint(t).evaluate_spec(c).map(|x| x.unwrap()) } else { n.evaluate_adjoint(t, c) };
                    r.map(|v| vec![v]).map_err(|e| format!("{:?}", e))
                });
            }
        }

        pub fn any_sign(c: &mut Cx<P>, x: D, y: D, z: D) {
            let v = |i: u8| Variable(XS(i));
            let k = P::of(3);
            match below(9) {
                0 => check("xy", Mul(v(0), v(1)), c, x * y),
                1 => check("xy+yz", v(0).mul(v(1)).add(v(1).mul(v(2))), c, x * y + y * z),
                2 => check("(x+y)(x+y)", v(0).add(v(1)).mul(v(0).add(v(1))), c, (x + y) * (x + y)),
                3 => check("2x(z+1)", Double(v(0)).mul(AddOne(v(2))), c, (x + x) * (z + con(1))),
                4 => check("3x+y", Constant(k).mul(v(0)).add(v(1)), c, con(3) * x + y),
                5 => check("(x+3)(y+3)", v(0).add(Constant(k)).mul(v(1).add(Constant(k))), c, (x + con(3)) * (y + con(3))),
                6 => check("memo(xy)z", v(0).mul(v(1)).cached(XS(5)).mul(v(2)), c, x * y * z),
                7 => check("3", Constant(k), c, con(3)),
                _ => second(c, x, y, z),
            }
        }

        cases!(@more $($signed)?);
        }
    };
    (@more) => {};
    (@more minus) => {
        pub fn minus(c: &mut Cx<P>, x: D, y: D, z: D) {
            let v = |i: u8| Variable(XS(i));
            match below(4) {
                0 => check("(x-y)y", Sub(v(0), v(1)).mul(v(1)), c, (x - y) * y),
                1 => check("x-(y-z)", v(0).sub(v(1).sub(v(2))), c, x - (y - z)),
                _ => any_sign(c, x, y, z),
            }
        }
    };
    (@more signed) => {
        pub fn signed(c: &mut Cx<P>, x: D, y: D, z: D) {
            let v = |i: u8| Variable(XS(i));
            match below(7) {
                0 => check("(x-y)y", Sub(v(0), v(1)).mul(v(1)), c, (x - y) * y),
                1 => check("x(1-y)", v(0).mul(OneSub(v(1))), c, x * (con(1) - y)),
                2 => check("(x^2-1)(-y)", SubOne(v(0).mul(v(0))).mul(Negate(v(1))), c, (x * x - con(1)) * -y),
                3 => check("-(x-(y-z))", Negate(v(0).sub(v(1).sub(v(2)))), c, -(x - (y - z))),
                4 if x.v != 0 => check("|x|y", Abs(v(0)).mul(v(1)), c, if x.v < 0 { -x * y } else { x * y }),
                5 if z.v.abs() == 1 => check("x/z", Div(v(0), v(2)), c, {
                    // 1/z = z for z = 1, -1, and its derivative is -1
                    let r = D { v: z.v, d: each(|i| if i == 2 { -1 } else { 0 }) };
                    x * r
                }),
                _ => any_sign(c, x, y, z),
            }
        }

        /// Element-wise linear expressions of long arrays: the gradient is a multiple of the identity.
        pub fn long_arrays(c: &mut Cx<P>) {
            fn go<N>(name: &str, n: N, c: &mut Cx<P>, slopes: [i128; 2])
            where
                N: Function<Cx<P>> + Differentiable<XA>,
                N::Adjoint: Function<Cx<P>, Value = [[P; L]; L]>,
            {
                fingerprint(hash_str(name));
                for _ in 0..2 {
                    let t = below(3) as u8;
                    let s = if t < 2 { slopes[t as usize] } else { 0 };
                    let want: Vec<i128> = (0..L * L).map(|i| if i / L == i % L { s } else { 0 }).collect();
                    let t = XA(t);
                    let how = HOWS[below(4) as usize];
                    let text = || format!("{} of {:?} by {:?}", name, how, t);
                    ask(c, &text, &want, |c| {
                        match how {
                            How::Eval => n.evaluate_adjoint(t, c).map_err(|e| format!("{:?}", e)),
                            How::Tree => n.adjoint(t).evaluate(c).map_err(|e| format!("{:?}", e)),
                            How::TreeSpec => n.adjoint(t).evaluate_spec(c).map(Spec::unwrap).map_err(|e| format!("{:?}", e)),
                            How::Dual => n.evaluate_dual(t, c).map(|d| d.adjoint).map_err(|e| format!("{:?}", e)),
                        }
                        .map(|j| j.list())
                    });
                }
            }
            let v = |i: u8| Variable(XA(i));
            let k: [P; L] = std::array::from_fn(|i| P::of(i as i128));
            match below(9) {
                0 => go("x", v(0), c, [1, 0]),
                1 => go("x+y", v(0).add(v(1)), c, [1, 1]),
                2 => go("x-y", v(0).sub(v(1)), c, [1, -1]),
                3 => go("-2x", Negate(Double(v(0))), c, [-2, 0]),
                4 => go("(x+1)-(1-y)", AddOne(v(0)).sub(OneSub(v(1))), c, [1, 1]),
                5 => go("k-x", k.into_constant().sub(v(0)), c, [-1, 0]),
                6 => go("x+x", v(0).add(v(0)), c, [2, 0]),
                // by the library's convention, the derivative of what is summed
                7 => go("sum(x)", v(0).sum(), c, [1, 0]),
                _ => go("sum(2y-x)", v(1).add(v(1)).sub(v(0)).sum(), c, [-1, 2]),
            }
        }

    };
    (@more float) => {
        cases!(@more signed);
        pub fn float(c: &mut Cx<P>, x: D, y: D, z: D) {
            let v = |i: u8| Variable(XS(i));
            match below(3) {
                0 => check("(x-y)^2", Square(Sub(v(0), v(1))), c, (x - y) * (x - y)),
                1 => check("(xy)^2 z", v(0).mul(v(1)).squared().mul(v(2)), c, x * y * x * y * z),
                _ => signed(c, x, y, z),
            }
        }
    };
}
cases!(for_i64, i64, minus);
cases!(for_i8, i8, minus);
cases!(for_u8, u8);
cases!(for_u32, u32);
cases!(for_f32, f32, float);
cases!(for_f64, f64, float);

fn with<P: Num>(low: i64, f: impl FnOnce(&mut Cx<P>, D, D, D)) {
    let v: [i64; 3] = std::array::from_fn(|_| range(low, 3));
    let mut c = Cx::<P>::fresh();
    for (i, x) in v.iter().enumerate() {
        c.put(0, i as u8, vec![P::of(*x as i128)]);
    }
    // a target that does not occur, but is there
    c.put(0, 7, vec![P::of(1)]);
    for i in 0..3 {
        let l: Vec<P> = (0..L).map(|_| P::of(range(low, 3) as i128)).collect();
        c.put(1, i, l);
    }
    let d = |i: usize| D { v: v[i] as i128, d: each(|j| (i == j) as i128) };
    sample(|| format!("{} gradients at {:?}", P::NAME, v));
    note(|| format!("{} at x, y, z = {:?}", P::NAME, v));
    f(&mut c, d(0), d(1), d(2));
    crate::alloc::harness(move || drop(c));
}

pub fn run() {
    count("op.exact_gradient");
    match below(8) {
        0 => with::<i64>(-3, for_i64::minus),
        1 => with::<f32>(-3, for_f32::float),
        2 => with::<i8>(-3, for_i8::minus),
        3 => with::<u8>(0, for_u8::any_sign),
        4 => with::<u32>(0, for_u32::any_sign),
        5 => with::<f64>(-3, |c, _, _, _| for_f64::long_arrays(c)),
        6 => with::<f32>(-3, |c, _, _, _| for_f32::long_arrays(c)),
        _ => with::<f64>(-3, for_f64::float),
    }
}
