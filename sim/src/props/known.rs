//! Scenarios of the known findings (../../../known-findings.md). Each returns true while the defect
//! is still there.
use crate::store::{IdA3, IdS, SimCtx, Db, Any, Kind, Tensor, F};
use crate::field::SimF;
use aegir::{meta::{Constant, Variable}, ops::{TensorDot, TensorProduct}, Differentiable};

pub struct Known {
    pub id: &'static str,
    pub property: &'static str,
    pub what: &'static str,
    pub run: fn() -> bool,
}

fn all() -> Vec<Known> {
    vec![
        Known {
            id: "dot-left-jacobian",
            property: "C08",
            what: "gradient of TensorDot(x, y) with respect to a vector uses the transpose of x's Jacobian \
                   (x = TensorProduct(a, TensorDot(a, w)), y = v, target a; ops/linalg/mod.rs, Contract::adjoint)",
            run: dot_left,
        },
        Known {
            id: "scaled-jacobian",
            property: "C08",
            what: "gradient of TensorProduct(s, a) with respect to a vector is transposed in its first term \
                   (s = TensorDot(a, w), target a; ops/linalg/mod.rs, Contract::adjoint)",
            run: scaled,
        },
    ]
}

pub fn scenarios(id: &str) -> Vec<Known> { all().into_iter().filter(|k| k.property == id).collect() }

const A: [f64; 3] = [1.0, 2.0, -1.0];
const W: [f64; 3] = [0.5, 1.0, 3.0];
const V: [f64; 3] = [2.0, -1.0, 1.0];

fn con(x: [f64; 3]) -> Constant<[F; 3]> { Constant(x.map(SimF)) }

fn ctx() -> SimCtx {
    let db = Db::new(1);
    db.set(Any { kind: Kind::A3, n: 0 }, Tensor { dims: vec![3], data: A.to_vec() });
    db.set(Any { kind: Kind::S, n: 0 }, Tensor::scalar(1.0));
    let _ = IdS(0);
    db.ctx(0)
}

fn dot(x: &[f64; 3], y: &[f64; 3]) -> f64 { x.iter().zip(y).map(|(a, b)| a * b).sum() }

fn dot_left() -> bool {
    let a = || Variable(IdA3(0));
    // f(a) = (a . w) (a . v)
    let f = TensorDot::new(TensorProduct::new(a(), TensorDot::new(a(), con(W))), con(V));
    let g = f.evaluate_adjoint(IdA3(0), &mut ctx()).unwrap();
    (0..3).any(|k| (g[k].0 - (dot(&A, &W) * V[k] + dot(&A, &V) * W[k])).abs() > 1e-6)
}

fn scaled() -> bool {
    let a = || Variable(IdA3(0));
    // f(a) = (a . w) a
    let f = TensorProduct::new(TensorDot::new(a(), con(W)), a());
    let g = f.evaluate_adjoint(IdA3(0), &mut ctx()).unwrap();
    (0..3).any(|i| (0..3).any(|k| {
        let want = W[k] * A[i] + if i == k { dot(&A, &W) } else { 0.0 };
        (g[i][k].0 - want).abs() > 1e-6
    }))
}
