//! `SimF`: the simulated number type. It is an `f64` whose every arithmetic operation is a point
//! where the scheduler may switch to another client or crash the one that is running. As a buffer it
//! delegates to the library's own `f64` implementation.
use crate::sim::op_point;
use aegir::buffers::{
    shapes::{IncompatibleShapes, Shaped, S0},
    Buffer, Scalar, Scalars, ZipFold, ZipMap,
};
use num_traits::{Float, FromPrimitive, Num, NumCast, One, Pow, ToPrimitive, Zero};
use special_fun::FloatSpecial;
use std::{
    num::FpCategory,
    ops::{Add, Div, Mul, Neg, Rem, Sub},
};

#[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
pub struct SimF(pub f64);

impl std::fmt::Debug for SimF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) }
}
impl std::fmt::Display for SimF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.0, f) }
}

macro_rules! arith {
    ($($tr:ident $f:ident),*) => {$(
        impl $tr for SimF {
            type Output = SimF;
            #[inline]
            fn $f(self, o: SimF) -> SimF { op_point(); SimF(self.0.$f(o.0)) }
        }
        impl<'a> $tr<&'a SimF> for SimF {
            type Output = SimF;
            #[inline]
            fn $f(self, o: &'a SimF) -> SimF { op_point(); SimF(self.0.$f(o.0)) }
        }
    )*};
}
arith!(Add add, Sub sub, Mul mul, Div div, Rem rem);

impl Neg for SimF {
    type Output = SimF;
    fn neg(self) -> SimF { op_point(); SimF(-self.0) }
}
impl Zero for SimF {
    fn zero() -> SimF { SimF(0.0) }
    fn is_zero(&self) -> bool { self.0 == 0.0 }
}
impl One for SimF {
    fn one() -> SimF { SimF(1.0) }
}
impl Num for SimF {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<SimF, Self::FromStrRadixErr> { f64::from_str_radix(s, r).map(SimF) }
}
impl ToPrimitive for SimF {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl FromPrimitive for SimF {
    fn from_i64(n: i64) -> Option<SimF> { f64::from_i64(n).map(SimF) }
    fn from_u64(n: u64) -> Option<SimF> { f64::from_u64(n).map(SimF) }
    fn from_f64(n: f64) -> Option<SimF> { Some(SimF(n)) }
}
impl NumCast for SimF {
    fn from<T: ToPrimitive>(n: T) -> Option<SimF> { <f64 as NumCast>::from(n).map(SimF) }
}
impl Pow<SimF> for SimF {
    type Output = SimF;
    fn pow(self, e: SimF) -> SimF { op_point(); SimF(Pow::pow(self.0, e.0)) }
}

macro_rules! float {
    (un: $($u:ident),*; bin: $($b:ident),*; con: $($c:ident),*; pred: $($p:ident),*) => {
        impl Float for SimF {
            $(fn $u(self) -> SimF { op_point(); SimF(Float::$u(self.0)) })*
            $(fn $b(self, o: SimF) -> SimF { op_point(); SimF(Float::$b(self.0, o.0)) })*
            $(fn $c() -> SimF { SimF(<f64 as Float>::$c()) })*
            $(fn $p(self) -> bool { Float::$p(self.0) })*
            fn classify(self) -> FpCategory { Float::classify(self.0) }
            fn mul_add(self, a: SimF, b: SimF) -> SimF { op_point(); SimF(Float::mul_add(self.0, a.0, b.0)) }
            fn powi(self, n: i32) -> SimF { op_point(); SimF(Float::powi(self.0, n)) }
            fn sin_cos(self) -> (SimF, SimF) { op_point(); let (a, b) = Float::sin_cos(self.0); (SimF(a), SimF(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    };
}
float!(
    un: floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan,
        asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, to_degrees, to_radians;
    bin: powf, log, max, min, abs_sub, hypot, atan2;
    con: nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon;
    pred: is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative
);

macro_rules! special {
    ($($f:ident($($a:ident),*)),* $(,)?) => {
        impl FloatSpecial for SimF {
            $(fn $f(self $(, $a: SimF)*) -> SimF { op_point(); SimF(FloatSpecial::$f(self.0 $(, $a.0)*)) })*
            fn besselk(self, v: i32) -> SimF { op_point(); SimF(FloatSpecial::besselk(self.0, v)) }
        }
    };
}
special!(
    beta(b), betainc(a, b), betainc_inv(a, b), factorial(), gamma(), rgamma(), loggamma(), gammainc(a), gammac(a),
    gammac_inv(a), digamma(), erf(), erfc(), hyp1f1(a, b), hyp1f2(a, b, c), hyp2f1(a, b, c), hyp3f0(a, b, c), norm(),
    norm_inv(), besselj(v), bessely(v), besseli(v), riemann_zeta(), hurwitz_zeta(q),
);

// --------------------------------------------------------------------------------------------
// As a buffer: everything goes through the library's f64.
// --------------------------------------------------------------------------------------------
impl Shaped for SimF {
    type Shape = S0;
    fn shape(&self) -> S0 { self.0.shape() }
}

impl Buffer for SimF {
    type Class = Scalars;
    type Field = SimF;
    fn class() -> Scalars { Scalars }
    fn get(&self, i: ()) -> Option<SimF> { self.0.get(i).map(SimF) }
    fn get_unchecked(&self, i: ()) -> SimF { SimF(self.0.get_unchecked(i)) }
    fn map<F: Scalar, M: Fn(SimF) -> F>(self, f: M) -> F { Buffer::map(self.0, |x| f(SimF(x))) }
    fn map_ref<F: Scalar, M: Fn(SimF) -> F>(&self, f: M) -> F { self.0.map_ref(|x| f(SimF(x))) }
    fn mutate<M: Fn(SimF) -> SimF>(&mut self, f: M) { self.0.mutate(|x| f(SimF(x)).0) }
    fn fold<F, M: Fn(F, SimF) -> F>(&self, init: F, f: M) -> F { self.0.fold(init, |a, x| f(a, SimF(x))) }
}

impl ZipFold for SimF {
    fn zip_fold<A: Scalar, M: Fn(A, (SimF, SimF)) -> A>(&self, r: &SimF, init: A, f: M) -> Result<A, IncompatibleShapes<S0>> {
        self.0.zip_fold(&r.0, init, |a, (x, y)| f(a, (SimF(x), SimF(y))))
    }
}

impl ZipMap for SimF {
    type Output<A: Scalar> = A;
    fn zip_map<A: Scalar, M: Fn(SimF, SimF) -> A>(self, r: &SimF, f: M) -> Result<A, IncompatibleShapes<S0>> {
        self.0.zip_map(&r.0, |x, y| f(SimF(x), SimF(y)))
    }
    fn zip_map_id<M: Fn(SimF, SimF) -> SimF>(self, r: &SimF, f: M) -> Result<SimF, IncompatibleShapes<S0>> {
        self.0.zip_map_id(&r.0, |x, y| f(SimF(x), SimF(y)).0).map(SimF)
    }
    fn zip_shape(self, s: S0) -> Result<SimF, IncompatibleShapes<S0>> { <f64 as ZipMap<f64>>::zip_shape(self.0, s).map(SimF) }
}

impl Scalar for SimF {}
