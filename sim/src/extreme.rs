//! Single operators far outside the ordinary range of numbers: saturation, overflow, the edges of
//! domains, infinities and not-a-number, for values and for first and second derivatives.
use crate::{
    ast::{Ast, ALL_B, B, DIFF_U, U},
    build::{AnyBuilt, Built, El, Gen, Opts, Out, View},
    node::{w21, Lv},
    sim::{below, chance, count, ev, fail, fingerprint, mix, nontrivial, pick},
    store::{Any, Db, IdS, Kind, Tensor, F},
    world::*,
};
use aegir::ops::Power;
use std::rc::Rc;

const WIDE: [f64; 30] = [
    0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 1e-300, -1e-300, 1e-17, -1e-17, 1e-8, -1e-8, 6.0, -6.0, 20.0, -20.0, 37.5, -37.5, 100.0, -100.0,
    709.0, -709.0, 760.0, -760.0, 1e5, -1e5, 1e16, -1e16, 1e150,
];

/// Values the operator is defined at and any careful evaluation agrees on.
fn pool(u: U) -> Vec<f64> {
    let wide = || WIDE.iter().cloned();
    let more = [1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    match u {
        U::Ln => wide().filter(|x| *x >= 0.0).chain([1e300, f64::INFINITY]).collect(),
        U::XLnX => wide().filter(|x| *x >= 0.0).collect(),
        U::ArcCos | U::ArcSin => vec![-1.0, 1.0, 0.0, 0.5, 1e-300, -1e-17, 0.9999999],
        U::ArcCosh => vec![1.0, 1.0000001, 2.0, 1e5, 1e150],
        U::ArcTanh => vec![0.0, 1e-8, -0.5, 0.999999, -1.0, 1.0],
        U::Gamma => vec![1e-8, 1e-3, 0.5, 1.0, 2.0, 3.5, 10.0, 50.0, 150.0],
        U::DiGamma | U::LogGamma => vec![1e-3, 0.5, 1.0, 2.0, 3.5, 10.0, 50.0, 170.0, 1e5],
        U::Factorial => vec![0.0, 0.5, 1.0, 2.0, 3.0, 10.0, 49.0, 150.0],
        U::Cosh | U::Sinh | U::Tan | U::ArcSinh | U::Rabbit | U::Sign => wide().collect(),
        U::Dirac => vec![0.0, 1.0, -1.0, 1e-300, -1e16],
        U::Sin | U::Cos => wide().collect(),
        _ => wide().chain(more).collect(),
    }
}

fn agree(got: f64, want: f64, rel: f64, abs: f64) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    if want.is_infinite() {
        return got == want;
    }
    (got - want).abs() <= abs + rel * want.abs()
}

fn leaf<X: El>(g: &mut Gen, db: &Db, n: u8, from: &[f64], dims: &[usize]) -> (Built<X>, Tensor) {
    let size: usize = dims.iter().product();
    let x = || from[below(from.len() as u32) as usize];
    let t = match below(4) {
        1 => Tensor::full(dims, x()),
        2 if !dims.is_empty() && from.contains(&0.0) => Tensor::diagonal(dims, x()),
        _ => Tensor { dims: dims.to_vec(), data: (0..size).map(|_| x()).collect() },
    };
    fingerprint(t.hash());
    if !X::KIND.dynamic() && chance(1, 4) {
        return (g.con::<X>(t.clone()), t);
    }
    let b = g.var::<X>(n);
    let id = Any { kind: X::KIND, n };
    ev(30, n as u64, t.hash(), || format!("set {:?} = {:?}", id, t));
    db.set(id, t.clone());
    (b, t)
}

/// One operator over one kind of buffer; its values against the plain formula.
pub fn value<X: El>() {
    count("op.extreme");
    nontrivial();
    let db = Db::new(1);
    let mut g = Gen::new(Opts { spec: true, ..Opts::default() });
    let sizes = Sizes::draw(0);
    let dims = sizes.of(X::KIND);
    let (b, want, rel, abs): (AnyBuilt, Tensor, f64, f64) = if chance(1, 2) {
        let us = X::uns();
        let u = us[below(us.len() as u32) as usize];
        let (x, t) = leaf::<X>(&mut g, &db, 0, &pool(u), &dims);
        let want = Tensor { dims: t.dims.clone(), data: t.data.iter().map(|v| u.f(*v)).collect() };
        let abs = match u {
            U::Erfc | U::Sigmoid => 1e-15,
            _ => 1e-290,
        };
        let b = Built { dn: X::un(u, x.dn), ast: Rc::new(Ast::Un(u, x.ast)), ..x };
        (AnyBuilt::new(b), want, 1e-12, abs)
    } else {
        let b = pick(&ALL_B);
        let mut from: Vec<f64> = WIDE.to_vec();
        from.extend([1e300, -1e300]);
        if b != B::Mul {
            from.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
        }
        let f = |p: f64, q: f64| match b {
            B::Add => p + q,
            B::Sub => p - q,
            B::Mul => p * q,
            B::Div => p / q,
        };
        let how = if X::MIXES && X::KIND != Kind::S { below(4) } else { 0 };
        match how {
            0 | 1 => {
                let (x, t) = leaf::<X>(&mut g, &db, 0, &from, &dims);
                let (y, s) = leaf::<X>(&mut g, &db, 1, &from, &dims);
                let want = Tensor { dims: t.dims.clone(), data: t.data.iter().zip(&s.data).map(|(p, q)| f(*p, *q)).collect() };
                let r = Built { dn: X::bin(b, x.dn, y.dn), ast: Rc::new(Ast::Bin(b, x.ast, y.ast)), lo: 0.0, hi: 0.0, sym: false };
                (AnyBuilt::new(r), want, 1e-13, 1e-290)
            },
            2 => {
                let (x, t) = leaf::<X>(&mut g, &db, 0, &from, &dims);
                let (y, s) = leaf::<F>(&mut g, &db, 1, &from, &[]);
                let want = Tensor { dims: t.dims.clone(), data: t.data.iter().map(|p| f(*p, s.data[0])).collect() };
                let r = Built { dn: X::bin_r(b, x.dn, y.dn), ast: Rc::new(Ast::Bin(b, x.ast, y.ast)), lo: 0.0, hi: 0.0, sym: false };
                (AnyBuilt::new(r), want, 1e-13, 1e-290)
            },
            _ => {
                let (x, t) = leaf::<F>(&mut g, &db, 0, &from, &[]);
                let (y, s) = leaf::<X>(&mut g, &db, 1, &from, &dims);
                let want = Tensor { dims: s.dims.clone(), data: s.data.iter().map(|q| f(t.data[0], *q)).collect() };
                let r = Built { dn: X::bin_l(b, x.dn, y.dn), ast: Rc::new(Ast::Bin(b, x.ast, y.ast)), lo: 0.0, hi: 0.0, sym: false };
                (AnyBuilt::new(r), want, 1e-13, 1e-290)
            },
        }
    };
    check(&db, &b, &want, rel, abs);
}

fn check(db: &Db, b: &AnyBuilt, want: &Tensor, rel: f64, abs: f64) {
    fingerprint(b.ast.hash());
    for view in [View::Value, View::Spec] {
        let mut p = Plan::default();
        p.cfg.repr = chance(1, 2);
        let d = exec(db, 0, b, view, p);
        let got = match d.ok() {
            Some(Out::Val(t)) | Some(Out::Spec(_, t, _)) => t,
            _ => return fail(format!("[extreme] {:?} of {:?} ends with {:?}", view, b.ast, d.res)),
        };
        if got.dims != want.dims || got.data.len() != want.data.len() {
            return fail(format!("[extreme] {:?} of {:?} gives {:?}, expected {:?}", view, b.ast, got, want));
        }
        for (k, (x, y)) in got.data.iter().zip(&want.data).enumerate() {
            if !agree(*x, *y, rel, abs) {
                return fail(format!("[extreme] {:?} of {:?}: element {} is {:?}, expected {:?}", view, b.ast, k, x, y));
            }
        }
    }
}

fn power(g: &mut Gen, db: &Db) -> Option<(Built<F>, f64, f64)> {
    let bases = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 1e-8, 1e8, -1e8, 1e150, 1e-150];
    let exps = [0.0, 1.0, 2.0, 3.0, 4.0, -1.0, -2.0, 0.5, 7.0];
    let (x, t) = leaf::<F>(g, db, 0, &bases, &[]);
    let (e, s) = leaf::<F>(g, db, 1, &exps, &[]);
    let l = Lv::of(&x.dn).and(Lv::of(&e.dn));
    let b = Built { dn: w21(Power(x.dn, e.dn), l), ast: Rc::new(Ast::Pow(x.ast, e.ast)), lo: 0.0, hi: 0.0, sym: true };
    Some((b, t.data[0], s.data[0]))
}

pub fn power_value() {
    count("op.extreme");
    nontrivial();
    let db = Db::new(1);
    let mut g = Gen::new(Opts { spec: true, ..Opts::default() });
    let Some((b, x, e)) = power(&mut g, &db) else { return };
    check(&db, &AnyBuilt::new(b), &Tensor::scalar(x.powf(e)), 1e-12, 1e-290);
}

/// Derivatives of one operator.
pub fn grad() {
    count("op.extreme");
    nontrivial();
    let db = Db::new(1);
    let mut g = Gen::new(Opts::default());
    let t = IdS(0);
    let finite = |v: f64| if v.is_finite() { Some(v) } else { None };
    let (b, d1, d2, tol): (_, Option<f64>, Option<f64>, f64) = if chance(1, 6) {
        let Some((b, x, e)) = power(&mut g, &db) else { return };
        // the base is differentiated, at points where the power is smooth
        if !matches!(&*b.ast, Ast::Pow(x, _) if matches!(&**x, Ast::Var(_))) || (x == 0.0 && e < 1.0) || (x < 0.0 && e.fract() != 0.0) || x.abs() > 1e100 || (x.abs() < 1e-100 && x != 0.0) {
            return;
        }
        let d1 = if e == 0.0 { 0.0 } else { e * x.powf(e - 1.0) };
        (b, finite(d1), None, 1e-12)
    } else {
        let u = DIFF_U[below(DIFF_U.len() as u32) as usize];
        let from: Vec<f64> = pool(u)
            .into_iter()
            .filter(|x| x.is_finite() && !(u.steps() || u == U::Abs) || *x != 0.0 && x.is_finite())
            .filter(|x| !(u == U::XLnX || u == U::Ln) || *x > 0.0)
            .collect();
        let x = from[below(from.len() as u32) as usize];
        let id = Any { kind: Kind::S, n: 0 };
        let v = g.var::<F>(0);
        ev(30, 0, Tensor::scalar(x).hash(), || format!("set {:?} = {:?}", id, x));
        fingerprint(Tensor::scalar(x).hash());
        db.set(id, Tensor::scalar(x));
        let b = Built { dn: <F as El>::un(u, v.dn), ast: Rc::new(Ast::Un(u, v.ast)), ..v };
        let d2 = if u.steps() { None } else { finite(u.f2(x)) };
        (b, finite(u.f1(x)), d2, if u == U::Sigmoid { 1e-14 } else { 1e-290 })
    };
    let b = AnyBuilt::new(b);
    fingerprint(b.ast.hash());
    let second = d2.is_some() && b.obj.levels().0 >= 2 && chance(1, 3);
    let view = if second { View::Hess(t, t) } else { pick(&[View::GradS(t), View::TreeS(t), View::TreeSpecS(t), View::DualS(t)]) };
    if b.obj.levels().0 == 0 {
        return;
    }
    let Some(want) = (if second { d2 } else { d1 }) else { return };
    fingerprint(mix(view.code(), 0));
    let d = exec(&db, 0, &b, view, Plan::default());
    let got = match d.ok() {
        Some(Out::Val(g)) | Some(Out::Spec(g, _, _)) | Some(Out::Dual(_, g)) => g.data[0],
        _ => return fail(format!("[extreme] {:?} of {:?} ends with {:?}", view, b.ast, d.res)),
    };
    if !agree(got, want, if second { 1e-6 } else { 1e-9 }, tol.max(if second { 1e-12 } else { 0.0 })) {
        fail(format!("[extreme] {:?} of {:?} is {:?}, expected {:?}", view, b.ast, got, want));
    }
}
