//! The harness's own description of an expression, and the reference semantics of the elementwise
//! operators: plain functions of a real number with their derivatives and domains.
use crate::store::{Any, Tensor};
use num_traits::Float;
use special_fun::FloatSpecial;
use std::{collections::BTreeSet, fmt, rc::Rc};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum U {
    AddOne,
    SubOne,
    OneSub,
    Square,
    Double,
    Negate,
    Abs,
    Sign,
    Dirac,
    Rabbit,
    Sigmoid,
    Ln,
    XLnX,
    Exp,
    Cos,
    Sin,
    Cosh,
    Sinh,
    ArcCos,
    ArcCosh,
    ArcSin,
    ArcSinh,
    Tan,
    Tanh,
    ArcTan,
    ArcTanh,
    Gamma,
    DiGamma,
    LogGamma,
    Erf,
    Erfc,
    Factorial,
}

use U::*;

pub const ALL_U: [U; 32] = [
    AddOne, SubOne, OneSub, Square, Double, Negate, Abs, Sign, Dirac, Rabbit, Sigmoid, Ln, XLnX, Exp, Cos, Sin, Cosh, Sinh, ArcCos,
    ArcCosh, ArcSin, ArcSinh, Tan, Tanh, ArcTan, ArcTanh, Gamma, DiGamma, LogGamma, Erf, Erfc, Factorial,
];
/// Operators of the library that have an adjoint.
pub const DIFF_U: [U; 18] = [
    AddOne, SubOne, OneSub, Square, Double, Negate, Abs, Sign, Rabbit, Sigmoid, Ln, XLnX, Exp, Cos, Sin, Gamma, LogGamma, Factorial,
];
/// Operators applied to non-scalar buffers.
pub const SOME_U: [U; 10] = [AddOne, OneSub, Square, Double, Negate, Abs, Sign, Exp, Sin, Sigmoid];
pub const LIN_U: [U; 5] = [AddOne, SubOne, OneSub, Double, Negate];

impl U {
    pub fn f(self, x: f64) -> f64 {
        match self {
            AddOne => x + 1.0,
            SubOne => x - 1.0,
            OneSub => 1.0 - x,
            Square => x * x,
            Double => x + x,
            Negate => -x,
            Abs => x.abs(),
            Sign => {
                if x > 0.0 {
                    1.0
                } else if x < 0.0 {
                    -1.0
                } else {
                    x
                }
            },
            Dirac => {
                if x == 0.0 {
                    f64::INFINITY
                } else {
                    0.0
                }
            },
            Rabbit => x * (1.0 - x),
            Sigmoid => 1.0 / (1.0 + (-x).exp()),
            Ln => x.ln(),
            XLnX => {
                if x <= 0.0 {
                    0.0
                } else {
                    x * x.ln()
                }
            },
            Exp => x.exp(),
            Cos => x.cos(),
            Sin => x.sin(),
            Cosh => x.cosh(),
            Sinh => x.sinh(),
            ArcCos => x.acos(),
            ArcCosh => Float::acosh(x),
            ArcSin => x.asin(),
            ArcSinh => Float::asinh(x),
            Tan => x.tan(),
            Tanh => x.tanh(),
            ArcTan => x.atan(),
            ArcTanh => Float::atanh(x),
            Gamma => FloatSpecial::gamma(x),
            DiGamma => FloatSpecial::digamma(x),
            LogGamma => FloatSpecial::loggamma(x),
            Erf => FloatSpecial::erf(x),
            Erfc => 1.0 - FloatSpecial::erf(x),
            Factorial => FloatSpecial::gamma(x + 1.0),
        }
    }

    /// First derivative of the operators in DIFF_U.
    pub fn f1(self, x: f64) -> f64 {
        match self {
            AddOne | SubOne => 1.0,
            OneSub | Negate => -1.0,
            Square => 2.0 * x,
            Double => 2.0,
            Abs => Sign.f(x),
            Sign => Dirac.f(x),
            Rabbit => 1.0 - 2.0 * x,
            Sigmoid => {
                let s = Sigmoid.f(x);
                s * (1.0 - s)
            },
            Ln => 1.0 / x,
            XLnX => 1.0 + x.ln(),
            Exp => x.exp(),
            Cos => -x.sin(),
            Sin => x.cos(),
            Gamma => Gamma.f(x) * DiGamma.f(x),
            LogGamma => DiGamma.f(x),
            Factorial => Gamma.f1(x + 1.0),
            _ => f64::NAN,
        }
    }

    pub fn f2(self, x: f64) -> f64 {
        match self {
            AddOne | SubOne | OneSub | Negate | Double => 0.0,
            Square => 2.0,
            Rabbit => -2.0,
            Sigmoid => {
                let s = Sigmoid.f(x);
                s * (1.0 - s) * (1.0 - 2.0 * s)
            },
            Ln => -1.0 / (x * x),
            XLnX => 1.0 / x,
            Exp => x.exp(),
            Cos => -x.cos(),
            Sin => -x.sin(),
            _ => f64::NAN,
        }
    }

    pub fn steps(self) -> bool { matches!(self, Sign | Dirac) }

    /// Image of an interval, or `None` where the operator is not defined or badly behaved.
    pub fn image(self, lo: f64, hi: f64) -> Option<(f64, f64)> {
        let m = lo.abs().max(hi.abs());
        let mono = |f: U| Some((f.f(lo), f.f(hi)));
        let within = |a: f64, b: f64| lo >= a && hi <= b;
        match self {
            AddOne | SubOne | Double | Tanh | ArcTan | ArcSinh | Sigmoid | Erf => mono(self),
            OneSub | Negate | Erfc => Some((self.f(hi), self.f(lo))),
            Square => Some((if lo > 0.0 { lo * lo } else if hi < 0.0 { hi * hi } else { 0.0 }, m * m)),
            Abs => Some((if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { 0.0 }, m)),
            Sign => Some((-1.0, 1.0)),
            Dirac => (lo > 0.0 || hi < 0.0).then_some((0.0, 0.0)),
            Rabbit => Some((-m * (1.0 + m), m * (1.0 + m))),
            Ln => (lo >= 0.05).then(|| (lo.ln(), hi.ln())),
            XLnX => (lo >= 0.05).then(|| (-0.37, (hi * hi.ln()).max(0.0))),
            Exp => (hi <= 4.0).then(|| (lo.exp(), hi.exp())),
            Cos | Sin => Some((-1.0, 1.0)),
            Cosh => within(-4.0, 4.0).then(|| (1.0, m.cosh())),
            Sinh => within(-4.0, 4.0).then(|| (lo.sinh(), hi.sinh())),
            ArcCos => within(-0.99, 0.99).then(|| (0.0, 3.2)),
            ArcSin => within(-0.99, 0.99).then(|| (-1.6, 1.6)),
            ArcCosh => (lo >= 1.01).then(|| (0.0, hi)),
            Tan => within(-1.4, 1.4).then(|| (lo.tan(), hi.tan())),
            ArcTanh => within(-0.95, 0.95).then(|| (Float::atanh(lo), Float::atanh(hi))),
            Gamma => within(0.2, 8.0).then(|| (0.88, self.f(lo).max(self.f(hi)))),
            DiGamma => within(0.2, 8.0).then(|| (self.f(lo), self.f(hi))),
            LogGamma => within(0.2, 8.0).then(|| (-0.13, self.f(lo).max(self.f(hi)))),
            Factorial => within(0.0, 7.0).then(|| (0.88, self.f(lo).max(self.f(hi)))),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    Div,
}

pub const ALL_B: [B; 4] = [B::Add, B::Sub, B::Mul, B::Div];

pub enum Ast {
    Var(Any),
    Con(Tensor),
    Un(U, Rc<Ast>),
    Bin(B, Rc<Ast>, Rc<Ast>),
    Pow(Rc<Ast>, Rc<Ast>),
    Con0(Rc<Ast>, Rc<Ast>),
    Con1(Rc<Ast>, Rc<Ast>),
    Con2(Rc<Ast>, Rc<Ast>),
    Sum(Rc<Ast>),
    Cache(Any, Rc<Ast>),
}

impl fmt::Debug for Ast {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ast::Var(i) => write!(f, "{}", i),
            Ast::Con(t) => write!(f, "{:?}", t),
            Ast::Un(u, x) => write!(f, "{:?}({:?})", u, x),
            Ast::Bin(b, x, y) => {
                let s = match b {
                    B::Add => "+",
                    B::Sub => "-",
                    B::Mul => "*",
                    B::Div => "/",
                };
                write!(f, "({:?} {} {:?})", x, s, y)
            },
            Ast::Pow(x, y) => write!(f, "({:?} ^ {:?})", x, y),
            Ast::Con0(x, y) => write!(f, "({:?} (x) {:?})", x, y),
            Ast::Con1(x, y) => write!(f, "<{:?}, {:?}>", x, y),
            Ast::Con2(x, y) => write!(f, "({:?} : {:?})", x, y),
            Ast::Sum(x) => write!(f, "Sum({:?})", x),
            Ast::Cache(i, x) => write!(f, "memo[{}]{{{:?}}}", i, x),
        }
    }
}

impl Ast {
    pub fn children(&self) -> Vec<&Rc<Ast>> {
        match self {
            Ast::Var(_) | Ast::Con(_) => vec![],
            Ast::Un(_, x) | Ast::Sum(x) | Ast::Cache(_, x) => vec![x],
            Ast::Bin(_, x, y) | Ast::Pow(x, y) | Ast::Con0(x, y) | Ast::Con1(x, y) | Ast::Con2(x, y) => vec![x, y],
        }
    }
    pub fn size(&self) -> u32 { 1 + self.children().iter().map(|c| c.size()).sum::<u32>() }
    pub fn vars(&self) -> BTreeSet<Any> {
        let mut s = BTreeSet::new();
        self.walk(&mut |a| {
            if let Ast::Var(i) = a {
                s.insert(*i);
            }
        });
        s
    }
    pub fn slots(&self) -> BTreeSet<Any> {
        let mut s = BTreeSet::new();
        self.walk(&mut |a| {
            if let Ast::Cache(i, _) = a {
                s.insert(*i);
            }
        });
        s
    }
    pub fn walk(&self, f: &mut impl FnMut(&Ast)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }
    pub fn hash(&self) -> u64 { crate::sim::hash_str(&format!("{:?}", self)) }
}
