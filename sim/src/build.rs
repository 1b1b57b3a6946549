//! Building the library's operators from dynamic nodes, and generating random well-typed expressions
//! whose every sub-expression stays inside its operator's domain.
use crate::{
    jac::JHow,
    ast::{Ast, ALL_B, ALL_U, B, DIFF_U, LIN_U, SOME_U, U},
    node::*,
    sim::{below, chance, pick},
    store::{represent, Any, Buf, Grid, IdA3, IdS, KBuf, Kind, SimCtx, Tensor, TypedId, F, R3, SLOT},
};
use aegir::{
    buffers::{shapes::ShapeOf, Buffer, Spec},
    meta::{Cached, Constant, SourceError, Variable},
    ops::{special::*, trig::*, *},
    Contains, Function, Node,
};
use std::{collections::BTreeMap, fmt, rc::Rc};

pub type A2 = [F; 2];
pub type A3 = [F; 3];
pub type V = Vec<F>;
pub type T = (F, F);
pub type M22 = [[F; 2]; 2];
pub type M23 = [[F; 3]; 2];
pub type M32 = [[F; 2]; 3];
pub type M33 = [[F; 3]; 3];
pub type G = Grid<F>;

// --------------------------------------------------------------------------------------------
// Sources
// --------------------------------------------------------------------------------------------
/// A constant in structured form.
pub struct SpecConst<X: KBuf>(pub Constant<Spec<X>>);

impl<X: KBuf> fmt::Debug for SpecConst<X> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SpecConst") }
}
impl<X: KBuf> Node for SpecConst<X> {}
impl<X: KBuf> Contains<Any> for SpecConst<X> {
    fn contains(&self, id: Any) -> bool { self.0.contains(id) }
}
impl<X: KBuf> Function<SimCtx> for SpecConst<X> {
    type Value = X;
    type Error = SourceError<()>;
    fn evaluate<CR: AsMut<SimCtx>>(&self, c: CR) -> Result<X, Self::Error> { self.0.evaluate(c) }
    fn evaluate_spec<CR: AsMut<SimCtx>>(&self, c: CR) -> Result<Spec<X>, Self::Error> { self.0.evaluate_spec(c) }
    fn evaluate_shape<CR: AsMut<SimCtx>>(&self, c: CR) -> Result<ShapeOf<X>, Self::Error> { self.0.evaluate_shape(c) }
}

pub fn spec_const<X: KBufA>(t: &Tensor) -> Dn<X> { p00(SpecConst(Constant(represent::<X>(t, true))), Lv(0, 0)) }

// --------------------------------------------------------------------------------------------
// Operators per kind
// --------------------------------------------------------------------------------------------
/// A kind of value expressions can have.
pub trait El: KBufA {
    fn var(n: u8) -> Dn<Self>;
    fn con(t: &Tensor) -> Dn<Self>;
    fn un(u: U, x: Dn<Self>) -> Dn<Self>;
    fn bin(b: B, x: Dn<Self>, y: Dn<Self>) -> Dn<Self>;
    fn bin_r(b: B, x: Dn<Self>, y: Dn<F>) -> Dn<Self>;
    fn bin_l(b: B, x: Dn<F>, y: Dn<Self>) -> Dn<Self>;
    fn cache(n: u8, x: Dn<Self>) -> Dn<Self>;
    fn sum_of(x: Dn<Self>) -> Dn<F>;
    /// Whether the kind combines elementwise with scalars.
    const MIXES: bool = true;
    fn gen(g: &mut Gen, depth: u32) -> Built<Self>;
    fn uns() -> &'static [U] { &SOME_U }
}

impl El for F {
    fn var(n: u8) -> Dn<F> { w21(Variable(IdS(n)), Lv(2, 1)) }
    fn con(t: &Tensor) -> Dn<F> { w11(F::from_tensor(t).into_constant(), Lv(1, 1)) }
    fn un(u: U, x: Dn<F>) -> Dn<F> {
        let l = Lv::of(&x);
        match u {
            U::AddOne => w21(AddOne(x), l),
            U::SubOne => w21(SubOne(x), l),
            U::OneSub => w21(OneSub(x), l),
            U::Square => w21(x.squared(), l),
            U::Double => w21(Double(x), l),
            U::Negate => w21(x.neg(), l),
            U::Abs => w11(x.abs(), l),
            U::Sign => w11(Sign(x), l),
            U::Dirac => w00(Dirac(x), l),
            U::Rabbit => w21(Rabbit(x), l),
            U::Sigmoid => w21(x.sigmoid(), l),
            U::Ln => w21(x.ln(), l),
            U::XLnX => w21(XLnX(x), l),
            U::Exp => w21(Exp(x), l),
            U::Cos => w21(Cos(x), l),
            U::Sin => w21(Sin(x), l),
            U::Cosh => w00(Cosh(x), l),
            U::Sinh => w00(Sinh(x), l),
            U::ArcCos => w00(ArcCos(x), l),
            U::ArcCosh => w00(ArcCosh(x), l),
            U::ArcSin => w00(ArcSin(x), l),
            U::ArcSinh => w00(ArcSinh(x), l),
            U::Tan => w00(Tan(x), l),
            U::Tanh => w00(Tanh(x), l),
            U::ArcTan => w00(ArcTan(x), l),
            U::ArcTanh => w00(ArcTanh(x), l),
            U::Gamma => w11(Gamma(x), l),
            U::DiGamma => w00(DiGamma(x), l),
            U::LogGamma => w11(LogGamma(x), l),
            U::Erf => w00(Erf(x), l),
            U::Erfc => w00(if chance(1, 2) { Erfc::erfc(x) } else { Erf(x).complement() }, l),
            U::Factorial => w11(Factorial::factorial(x), l),
        }
    }
    fn bin(b: B, x: Dn<F>, y: Dn<F>) -> Dn<F> {
        let l = Lv::of(&x).and(Lv::of(&y));
        match b {
            B::Add => w21(x.add(y), l),
            B::Sub => w21(x.sub(y), l),
            B::Mul => w21(x.mul(y), l),
            B::Div => w21(x.div(y), l),
        }
    }
    fn bin_r(b: B, x: Dn<F>, y: Dn<F>) -> Dn<F> { Self::bin(b, x, y) }
    fn bin_l(b: B, x: Dn<F>, y: Dn<F>) -> Dn<F> { Self::bin(b, x, y) }
    fn cache(n: u8, x: Dn<F>) -> Dn<F> {
        let l = Lv::of(&x);
        p20(x.cached(IdS(n)), l)
    }
    fn sum_of(x: Dn<F>) -> Dn<F> {
        let l = Lv::of(&x);
        q21(x.sum(), l)
    }
    fn gen(g: &mut Gen, depth: u32) -> Built<F> { g.gen_s(depth) }
    fn uns() -> &'static [U] { &ALL_U }
}

macro_rules! el {
    // $lin: constructor of linear operators; $non: of the others; $bin/$mix: of binary operators
    ($ty:ty, $id:ident, $con:ident($cs:literal, $ca:literal), $lin:ident, $non:ident, add $add:ident, mul $mul:ident, var $var:ident,
     cache $cache:ident, mix $mixadd:ident $mixmul:ident $mixes:tt, [$($u:ident)*], gen $gen:ident) => {
        impl El for $ty {
            fn var(n: u8) -> Dn<Self> { $var(Variable::from(<$ty as KBuf>::Id::of(n)), Lv(2, 1)) }
            fn con(t: &Tensor) -> Dn<Self> { $con(<$ty>::from_tensor(t).into_constant(), Lv($cs, $ca)) }
            fn un(u: U, x: Dn<Self>) -> Dn<Self> {
                let l = Lv::of(&x);
                match u {
                    U::AddOne => $lin(AddOne(x), l),
                    U::SubOne => $lin(SubOne(x), l),
                    U::OneSub => $lin(OneSub(x), l),
                    U::Double => $lin(Double(x), l),
                    U::Negate => $lin(x.neg(), l),
                    U::Square => $non(x.squared(), l),
                    U::Abs => w00(Abs(x), l),
                    U::Sign => w00(Sign(x), l),
                    U::Exp => $non(Exp(x), l),
                    U::Sin => $non(Sin(x), l),
                    U::Sigmoid => $non(x.sigmoid(), l),
                    $(U::$u => $non($u(x), l),)*
                    _ => panic!("harness: {:?} on this kind", u),
                }
            }
            fn bin(b: B, x: Dn<Self>, y: Dn<Self>) -> Dn<Self> {
                let l = Lv::of(&x).and(Lv::of(&y));
                match b {
                    B::Add => $add(x.add(y), l),
                    B::Sub => $add(x.sub(y), l),
                    B::Mul => $mul(x.mul(y), l),
                    B::Div => $mul(x.div(y), l),
                }
            }
            el!(@mix $mixes $mixadd $mixmul);
            fn cache(n: u8, x: Dn<Self>) -> Dn<Self> {
                let l = Lv::of(&x);
                $cache(Cached { node: x, ident: <$ty as KBuf>::Id::of(n) }, l)
            }
            fn sum_of(x: Dn<Self>) -> Dn<F> { q00(x.sum(), Lv(0, 0)) }
            const MIXES: bool = $mixes;
            fn gen(g: &mut Gen, depth: u32) -> Built<Self> { g.$gen(depth) }
        }
    };
    (@mix true $add:ident $mul:ident) => {
        fn bin_r(b: B, x: Dn<Self>, y: Dn<F>) -> Dn<Self> {
            let l = Lv::of(&x).and(Lv::of(&y));
            match b {
                B::Add => $add(x.add(y), l),
                B::Sub => $add(x.sub(y), l),
                B::Mul => $mul(x.mul(y), l),
                B::Div => $mul(x.div(y), l),
            }
        }
        fn bin_l(b: B, x: Dn<F>, y: Dn<Self>) -> Dn<Self> {
            let l = Lv::of(&x).and(Lv::of(&y));
            match b {
                B::Add => $add(x.add(y), l),
                B::Sub => $add(x.sub(y), l),
                B::Mul => $mul(x.mul(y), l),
                B::Div => $mul(x.div(y), l),
            }
        }
    };
    (@mix false $add:ident $mul:ident) => {
        fn bin_r(_: B, _: Dn<Self>, _: Dn<F>) -> Dn<Self> { panic!("harness: no mixing") }
        fn bin_l(_: B, _: Dn<F>, _: Dn<Self>) -> Dn<Self> { panic!("harness: no mixing") }
    };
}
el!(A3, IdA3, p11(1, 1), w11, w10, add w11, mul w10, var w11, cache p01, mix w10 w10 true, [Rabbit Ln Cos XLnX Gamma], gen gen_a3);
el!(A2, IdA2, p10(1, 0), w10, w10, add w10, mul w10, var w10, cache p00, mix w10 w10 true, [], gen gen_a2);
el!(T, IdT, p10(1, 0), w10, w10, add w10, mul w10, var w10, cache p00, mix w10 w10 false, [], gen gen_t);
el!(V, IdV, p00(0, 0), w00, w00, add w00, mul w00, var w00, cache p00, mix w00 w00 true, [], gen gen_v);
el!(M22, IdM22, p10(1, 0), w10, w00, add w10, mul w10, var w10, cache p00, mix w00 w00 true, [], gen gen_m22);
el!(M23, IdM23, p00(0, 0), w00, w00, add w00, mul w00, var w00, cache p00, mix w00 w00 true, [], gen gen_m23);
el!(M32, IdM32, p00(0, 0), w00, w00, add w00, mul w00, var w00, cache p00, mix w00 w00 true, [], gen gen_m32);
el!(M33, IdM33, p10(1, 0), w10, w10, add w10, mul w10, var w10, cache p00, mix w10 w10 true, [], gen gen_m33);
el!(R3, IdR3, p00(0, 0), w00, w00, add w00, mul w00, var w00, cache p00, mix w00 w00 true, [], gen gen_r3);
el!(G, IdG, p00(0, 0), w00, w00, add w00, mul w00, var w00, cache p00, mix w00 w00 true, [], gen gen_g);

// --------------------------------------------------------------------------------------------
// Generated expressions
// --------------------------------------------------------------------------------------------
pub struct Built<X: KBufA> {
    pub dn: Dn<X>,
    pub ast: Rc<Ast>,
    pub lo: f64,
    pub hi: f64,
    /// The Jacobian with respect to a 3-vector is known to be symmetric.
    pub sym: bool,
}
impl<X: KBufA> Clone for Built<X> {
    fn clone(&self) -> Self { Built { dn: self.dn.clone(), ast: self.ast.clone(), lo: self.lo, hi: self.hi, sym: self.sym } }
}

#[derive(Clone)]
pub struct Opts {
    /// Chance (of 64) of wrapping a node in a memo.
    pub cache: u32,
    /// Prefer operators that can be differentiated.
    pub diff: bool,
    /// Allow constants in structured form.
    pub spec: bool,
    /// Allow buffers of run-time size.
    pub dynamic: bool,
    pub max_size: u32,
}

impl Default for Opts {
    fn default() -> Self { Opts { cache: 0, diff: false, spec: false, dynamic: true, max_size: 24 } }
}

pub struct Gen {
    pub o: Opts,
    pub vars: BTreeMap<Any, (f64, f64)>,
    pub slots: BTreeMap<Any, (f64, f64)>,
    pub size: u32,
    pool_s: Vec<Built<F>>,
    pool_a: Vec<Built<A3>>,
}

pub fn range_of(id: Any) -> (f64, f64) {
    match (id.kind, id.n) {
        (Kind::S, 0) => (-2.0, 2.0),
        (Kind::S, 1) => (-0.9, 0.9),
        (Kind::S, 2) => (0.3, 2.0),
        (Kind::S, 3) => (1.05, 3.0),
        (Kind::S, _) => (0.0, 2.0),
        (_, 0) => (-2.0, 2.0),
        (_, 1) => (0.3, 2.0),
        (_, _) => (-0.9, 0.9),
    }
}

const BIG: f64 = 1e3;

impl Gen {
    pub fn new(o: Opts) -> Gen {
        Gen { o, vars: BTreeMap::new(), slots: BTreeMap::new(), size: 0, pool_s: vec![], pool_a: vec![] }
    }

    pub fn var<X: El>(&mut self, n: u8) -> Built<X> {
        let id = Any { kind: X::KIND, n };
        let (lo, hi) = range_of(id);
        self.vars.insert(id, (lo, hi));
        self.size += 1;
        Built { dn: X::var(n), ast: Rc::new(Ast::Var(id)), lo, hi, sym: true }
    }

    pub fn con<X: El>(&mut self, t: Tensor) -> Built<X> {
        self.size += 1;
        let spec = self.o.spec && chance(1, 2);
        let dn = if spec { spec_const(&t) } else { X::con(&t) };
        let lo = t.data.iter().cloned().fold(f64::INFINITY, f64::min);
        let hi = t.data.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        Built { dn, ast: Rc::new(Ast::Con(t)), lo, hi, sym: true }
    }

    fn dims<X: El>(&self) -> Option<Vec<usize>> {
        Some(match X::KIND {
            Kind::S => vec![],
            Kind::A2 | Kind::T => vec![2],
            Kind::A3 => vec![3],
            Kind::M22 => vec![2, 2],
            Kind::M23 => vec![2, 3],
            Kind::M32 => vec![3, 2],
            Kind::M33 => vec![3, 3],
            Kind::R3 => vec![2, 3, 2],
            Kind::V | Kind::G | Kind::D => return None,
        })
    }

    fn leaf<X: El>(&mut self) -> Built<X> {
        let nvars = if X::KIND == Kind::S { 5 } else { 3 };
        if chance(1, 5) {
            if let Some(d) = self.dims::<X>() {
                let t = if d.is_empty() { Tensor::scalar(pick(&[2.0, 0.0, 1.0, 0.5, -1.0, 3.0])) } else { value(&d, (-2.0, 2.0)) };
                return self.con(t);
            }
        }
        let n = below(nvars) as u8;
        self.var::<X>(n)
    }

    pub fn un<X: El>(&mut self, u: U, x: &Built<X>) -> Option<Built<X>> {
        let (lo, hi) = u.image(x.lo, x.hi)?;
        if !(lo.abs() <= BIG && hi.abs() <= BIG) {
            return None;
        }
        self.size += 1;
        let sym = x.sym && LIN_U.contains(&u);
        Some(Built { dn: X::un(u, x.dn.clone()), ast: Rc::new(Ast::Un(u, x.ast.clone())), lo, hi, sym })
    }

    fn bin_image(b: B, x: (f64, f64), y: (f64, f64)) -> Option<(f64, f64)> {
        let r = match b {
            B::Add => (x.0 + y.0, x.1 + y.1),
            B::Sub => (x.0 - y.1, x.1 - y.0),
            B::Mul => hull(x, y, |a, b| a * b),
            B::Div => {
                if y.0 <= 0.2 && y.1 >= -0.2 {
                    return None;
                }
                hull(x, y, |a, b| a / b)
            },
        };
        (r.0.abs() <= BIG && r.1.abs() <= BIG).then_some(r)
    }

    pub fn bin<X: El>(&mut self, b: B, x: &Built<X>, y: &Built<X>) -> Option<Built<X>> {
        let (lo, hi) = Self::bin_image(b, (x.lo, x.hi), (y.lo, y.hi))?;
        self.size += 1;
        let dn = X::bin(b, x.dn.clone(), y.dn.clone());
        Some(Built { dn, ast: Rc::new(Ast::Bin(b, x.ast.clone(), y.ast.clone())), lo, hi, sym: x.sym && y.sym })
    }

    pub fn bin_r<X: El>(&mut self, b: B, x: &Built<X>, y: &Built<F>) -> Option<Built<X>> {
        let (lo, hi) = Self::bin_image(b, (x.lo, x.hi), (y.lo, y.hi))?;
        self.size += 1;
        let dn = X::bin_r(b, x.dn.clone(), y.dn.clone());
        Some(Built { dn, ast: Rc::new(Ast::Bin(b, x.ast.clone(), y.ast.clone())), lo, hi, sym: false })
    }

    pub fn bin_l<X: El>(&mut self, b: B, x: &Built<F>, y: &Built<X>) -> Option<Built<X>> {
        let (lo, hi) = Self::bin_image(b, (x.lo, x.hi), (y.lo, y.hi))?;
        self.size += 1;
        let dn = X::bin_l(b, x.dn.clone(), y.dn.clone());
        Some(Built { dn, ast: Rc::new(Ast::Bin(b, x.ast.clone(), y.ast.clone())), lo, hi, sym: false })
    }

    pub fn pow(&mut self, x: &Built<F>, e: &Built<F>) -> Option<Built<F>> {
        let const_exp = match &*e.ast {
            Ast::Con(t) => Some(t.data[0]),
            _ => None,
        };
        let const_base = match &*x.ast {
            Ast::Con(t) => Some(t.data[0]),
            _ => None,
        };
        let (lo, hi, limit) = if x.lo > 0.05 {
            let (a, b) = hull((x.lo, x.hi), (e.lo, e.hi), |a, b| a.powf(b));
            (a.min(1.0), b.max(1.0), false)
        } else if let Some(k) = const_exp {
            if !(k == 0.0 || k == 1.0 || k == 2.0 || k == 3.0) {
                return None;
            }
            let m = x.lo.abs().max(x.hi.abs()).powf(k);
            (-m, m, k < 2.0)
        } else if const_base == Some(0.0) && e.lo >= 0.0 {
            (0.0, 1.0, true)
        } else {
            return None;
        };
        if !(lo.abs() <= BIG && hi.abs() <= BIG) {
            return None;
        }
        self.size += 1;
        let l = Lv::of(&x.dn).and(Lv::of(&e.dn));
        let l = if limit { Lv(0, 0) } else { l };
        let dn = w21(x.dn.clone().pow(e.dn.clone()), l);
        Some(Built { dn, ast: Rc::new(Ast::Pow(x.ast.clone(), e.ast.clone())), lo, hi, sym: true })
    }

    pub fn sum<X: El>(&mut self, x: &Built<X>) -> Option<Built<F>> {
        let n = self.dims::<X>().map(|d| d.iter().product::<usize>()).unwrap_or(9) as f64;
        let (lo, hi) = ((x.lo * n).min(x.lo).min(0.0), (x.hi * n).max(x.hi).max(0.0));
        if !(lo.abs() <= BIG && hi.abs() <= BIG) {
            return None;
        }
        self.size += 1;
        let (lo, hi) = if X::KIND == Kind::S { (x.lo, x.hi) } else { (lo, hi) };
        Some(Built { dn: X::sum_of(x.dn.clone()), ast: Rc::new(Ast::Sum(x.ast.clone())), lo, hi, sym: true })
    }

    /// Wrap a node in a memo with a slot of its own.
    pub fn cache<X: El>(&mut self, x: &Built<X>) -> Built<X> {
        let n = SLOT + self.slots.keys().filter(|s| s.kind == X::KIND).count() as u8;
        let id = Any { kind: X::KIND, n };
        self.slots.insert(id, (x.lo, x.hi));
        self.size += 1;
        Built { dn: X::cache(n, x.dn.clone()), ast: Rc::new(Ast::Cache(id, x.ast.clone())), ..x.clone() }
    }

    fn full(&self) -> bool { self.size >= self.o.max_size }

    /// Elementwise productions shared by every kind.
    fn elementwise<X: El>(&mut self, depth: u32) -> Option<Built<X>> {
        match below(if X::MIXES && X::KIND != Kind::S { 6 } else { 4 }) {
            0 | 1 => {
                let x = X::gen(self, depth - 1);
                let us: Vec<U> = X::uns()
                    .iter()
                    .cloned()
                    .filter(|u| !self.o.diff || (DIFF_U.contains(u) && (X::KIND != Kind::A3 || LIN_U.contains(u))))
                    .collect();
                for _ in 0..3 {
                    if let Some(b) = self.un(pick(&us), &x) {
                        return Some(b);
                    }
                }
                Some(x)
            },
            2 | 3 => {
                let b = self.pick_b::<X>();
                let x = match self.dims::<X>() {
                    // a structural zero on the left
                    Some(d) if self.o.spec && chance(1, 10) => self.con::<X>(Tensor::full(&d, 0.0)),
                    _ => X::gen(self, depth - 1),
                };
                let y = if chance(1, 8) { x.clone() } else { X::gen(self, depth - 1) };
                self.bin(b, &x, &y).or_else(|| self.bin(B::Sub, &x, &y)).or(Some(x))
            },
            4 => {
                let b = self.pick_b::<X>();
                let x = X::gen(self, depth - 1);
                let y = self.gen_s(depth - 1);
                self.bin_r(b, &x, &y).or_else(|| self.bin_r(B::Sub, &x, &y)).or(Some(x))
            },
            _ => {
                let b = self.pick_b::<X>();
                let x = self.gen_s(depth - 1);
                let y = X::gen(self, depth - 1);
                self.bin_l(b, &x, &y).or_else(|| self.bin_l(B::Sub, &x, &y)).or(Some(y))
            },
        }
    }

    fn pick_b<X: El>(&mut self) -> B {
        if self.o.diff && X::KIND == Kind::A3 {
            pick(&[B::Add, B::Sub])
        } else {
            pick(&ALL_B)
        }
    }

    fn finish<X: El>(&mut self, b: Built<X>) -> Built<X> {
        if self.o.cache > 0 && self.slots.len() < 6 && chance(self.o.cache, 64) {
            self.cache(&b)
        } else {
            b
        }
    }

    pub fn gen_s(&mut self, depth: u32) -> Built<F> {
        if depth == 0 || self.full() {
            return self.leaf();
        }
        let b = match below(10) {
            0 => Some(self.leaf()),
            1 => {
                // reuse the very same sub-expression
                if self.pool_s.is_empty() {
                    None
                } else {
                    let i = below(self.pool_s.len() as u32) as usize;
                    let b = self.pool_s[i].clone();
                    self.size += b.ast.size();
                    (self.size <= self.o.max_size + 20).then_some(b)
                }
            },
            2..=5 => self.elementwise::<F>(depth),
            6 => {
                let x = self.gen_s(depth - 1);
                let e = if chance(1, 2) { self.con(Tensor::scalar(pick(&[2.0, 0.0, 1.0, 3.0, 0.5]))) } else { self.gen_s(depth - 1) };
                self.pow(&x, &e).or(Some(x))
            },
            7 => self.gen_dot(depth),
            8 => self.gen_sum(depth),
            _ => {
                let x = self.gen_s(depth - 1);
                let y = self.gen_s(depth - 1);
                if chance(1, 2) {
                    con0(self, &x, &y, |x, y, l| w21(TensorProduct::new(x, y), l))
                } else {
                    con1(self, 1, &x, &y, |x, y, l| w20(TensorDot::new(x, y), l))
                }
            },
        };
        let b = match b {
            Some(b) => b,
            None => self.leaf(),
        };
        let b = self.finish(b);
        if self.pool_s.len() < 4 && !matches!(*b.ast, Ast::Var(_) | Ast::Con(_)) {
            self.pool_s.push(b.clone());
        }
        b
    }

    /// The user-written matrices' double contraction.
    pub fn gen_ddot(&mut self, depth: u32) -> Option<Built<F>> {
        let (x, y) = (self.gen_g(depth - 1), self.gen_g(depth - 1));
        con_dyn(self, true, &x, &y, |x, y, _| q00(TensorDoubleDot::new(x, y), Lv(0, 0)))
    }

    fn gen_dot(&mut self, depth: u32) -> Option<Built<F>> {
        if self.o.dynamic && !self.o.diff && chance(1, 4) {
            return self.gen_ddot(depth);
        }
        if chance(1, 3) && !self.o.diff {
            let (x, y) = (self.gen_a2(depth - 1), self.gen_a2(depth - 1));
            con1(self, 2, &x, &y, |x, y, l| w10(TensorDot::new(x, y), l))
        } else {
            let (x, y) = (self.gen_a3(depth - 1), self.gen_a3(depth - 1));
            let sym = x.sym;
            con1(self, 3, &x, &y, |x, y, l| w11(x.dot(y), if sym { l } else { Lv(l.0, 0) }))
        }
    }

    /// `<x, y>` for any x, differentiable with respect to 3-vectors whatever x's Jacobian looks like
    /// (see known-findings.md).
    pub fn dot_any(&mut self, x: &Built<A3>, y: &Built<A3>) -> Option<Built<F>> {
        con1(self, 3, x, y, |x, y, l| w11(x.dot(y), l))
    }

    /// `s (x) a`, likewise.
    pub fn scaled_any(&mut self, s: &Built<F>, a: &Built<A3>) -> Option<Built<A3>> {
        con0(self, s, a, |s, a, l| w11(TensorProduct::new(s, a), l))
    }

    fn gen_sum(&mut self, depth: u32) -> Option<Built<F>> {
        if self.o.diff {
            let x = self.gen_s(depth - 1);
            return self.sum(&x);
        }
        macro_rules! s {
            ($f:ident) => {{
                let x = self.$f(depth - 1);
                self.sum(&x)
            }};
        }
        match below(if self.o.dynamic { 11 } else { 9 }) {
            0 => s!(gen_a3),
            1 => s!(gen_s),
            2 => s!(gen_a2),
            3 => s!(gen_m22),
            4 => s!(gen_m23),
            5 => s!(gen_m32),
            6 => s!(gen_m33),
            7 => s!(gen_r3),
            8 => s!(gen_t),
            9 => s!(gen_v),
            _ => s!(gen_g),
        }
    }

    pub fn gen_a3(&mut self, depth: u32) -> Built<A3> {
        if depth == 0 || self.full() {
            return self.leaf();
        }
        let b = match below(8) {
            0 => Some(self.leaf()),
            1 if !self.pool_a.is_empty() => {
                let i = below(self.pool_a.len() as u32) as usize;
                let b = self.pool_a[i].clone();
                self.size += b.ast.size();
                (self.size <= self.o.max_size + 20).then_some(b)
            },
            2..=4 => self.elementwise::<A3>(depth),
            5 => {
                let (x, y) = (self.gen_a3(depth - 1), self.gen_s(depth - 1));
                con0(self, &x, &y, |x, y, l| w11(TensorProduct::new(x, y), l)).map(|b| Built { sym: false, ..b })
            },
            6 if !self.o.diff => {
                let (x, y) = (self.gen_s(depth - 1), self.gen_a3(depth - 1));
                con0(self, &x, &y, |x, y, l| w10(TensorProduct::new(x, y), l)).map(|b| Built { sym: false, ..b })
            },
            _ if !self.o.diff => match below(4) {
                0 => {
                    let (x, y) = (self.gen_m33(depth - 1), self.gen_a3(depth - 1));
                    con1(self, 3, &x, &y, |x, y, l| w10(TensorDot::new(x, y), l)).map(|b| Built { sym: false, ..b })
                },
                1 => {
                    let (x, y) = (self.gen_a3(depth - 1), self.gen_m33(depth - 1));
                    con1(self, 3, &x, &y, |x, y, l| w10(TensorDot::new(x, y), l)).map(|b| Built { sym: false, ..b })
                },
                2 => {
                    let (x, y) = (self.gen_a2(depth - 1), self.gen_m23(depth - 1));
                    con1(self, 2, &x, &y, |x, y, _| w00(TensorDot::new(x, y), Lv(0, 0)))
                },
                _ => {
                    let (x, y) = (self.gen_m32(depth - 1), self.gen_a2(depth - 1));
                    con1(self, 2, &x, &y, |x, y, _| w00(TensorDot::new(x, y), Lv(0, 0)))
                },
            },
            _ => self.elementwise::<A3>(depth),
        };
        let b = match b {
            Some(b) => b,
            None => self.leaf(),
        };
        let b = self.finish(b);
        if self.pool_a.len() < 3 && !matches!(*b.ast, Ast::Var(_) | Ast::Con(_)) {
            self.pool_a.push(b.clone());
        }
        b
    }

    pub fn gen_any(&mut self, depth: u32) -> AnyBuilt {
        macro_rules! g {
            ($f:ident) => {
                AnyBuilt::new(self.$f(depth))
            };
        }
        match below(if self.o.dynamic { 17 } else { 15 }) {
            0..=4 => g!(gen_s),
            5 | 6 => g!(gen_a3),
            7 => g!(gen_a2),
            8 => g!(gen_t),
            9 => g!(gen_m22),
            10 => g!(gen_m23),
            11 => g!(gen_m32),
            12 => g!(gen_m33),
            13 => g!(gen_r3),
            14 => crate::jac::gen(self, depth),
            15 => g!(gen_v),
            _ => g!(gen_g),
        }
    }
}

fn hull(x: (f64, f64), y: (f64, f64), f: impl Fn(f64, f64) -> f64) -> (f64, f64) {
    let v = [f(x.0, y.0), f(x.0, y.1), f(x.1, y.0), f(x.1, y.1)];
    (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
}

fn con0<X: El, Y: El, Z: KBufA>(g: &mut Gen, x: &Built<X>, y: &Built<Y>, f: impl Fn(Dn<X>, Dn<Y>, Lv) -> Dn<Z>) -> Option<Built<Z>> {
    let (lo, hi) = hull((x.lo, x.hi), (y.lo, y.hi), |a, b| a * b);
    if !(lo.abs() <= BIG && hi.abs() <= BIG) {
        return None;
    }
    g.size += 1;
    let l = Lv::of(&x.dn).and(Lv::of(&y.dn));
    Some(Built { dn: f(x.dn.clone(), y.dn.clone(), l), ast: Rc::new(Ast::Con0(x.ast.clone(), y.ast.clone())), lo, hi, sym: true })
}

fn con1<X: El, Y: El, Z: KBufA>(g: &mut Gen, n: usize, x: &Built<X>, y: &Built<Y>, f: impl Fn(Dn<X>, Dn<Y>, Lv) -> Dn<Z>) -> Option<Built<Z>> {
    let (lo, hi) = hull((x.lo, x.hi), (y.lo, y.hi), |a, b| n as f64 * a * b);
    if !(lo.abs() <= BIG && hi.abs() <= BIG) {
        return None;
    }
    g.size += 1;
    let l = Lv::of(&x.dn).and(Lv::of(&y.dn));
    Some(Built { dn: f(x.dn.clone(), y.dn.clone(), l), ast: Rc::new(Ast::Con1(x.ast.clone(), y.ast.clone())), lo, hi, sym: true })
}

/// Buffers of run-time size meet whatever sizes they have.
fn con_dyn<X: El, Y: El, Z: KBufA>(g: &mut Gen, two: bool, x: &Built<X>, y: &Built<Y>, f: impl Fn(Dn<X>, Dn<Y>, Lv) -> Dn<Z>) -> Option<Built<Z>> {
    crate::world::SQUARE.with(|q| q.set(true));
    let b = con1(g, if two { 16 } else { 4 }, x, y, f)?;
    // over no elements at all the sum is 0
    let ast = match (&*b.ast, two) {
        (Ast::Con1(x, y), true) => Rc::new(Ast::Con2(x.clone(), y.clone())),
        _ => b.ast.clone(),
    };
    Some(Built { ast, lo: b.lo.min(0.0), hi: b.hi.max(0.0), ..b })
}

/// Generators of the remaining kinds: elementwise operators plus the listed contractions.
macro_rules! gens {
    ($($name:ident -> $ty:ty { $($ctor:ident $k:ident $n:literal $w:ident $lx:ident $ly:ident),* };)*) => {
        impl Gen {
            $(pub fn $name(&mut self, depth: u32) -> Built<$ty> {
                if depth == 0 || self.full() {
                    return self.leaf();
                }
                #[allow(unused_mut)]
                let mut total = 0u32;
                $(let _ = stringify!($lx); total += 1;)*
                let b = match below(8) {
                    0 | 1 => Some(self.leaf()),
                    2..=4 => self.elementwise::<$ty>(depth),
                    _ if total > 0 => {
                        let _which = below(total);
                        let mut _i = 0;
                        let mut _out = None;
                        $(
                            if _which == _i {
                                let x = self.$lx(depth - 1);
                                let y = self.$ly(depth - 1);
                                _out = gens!(@$ctor self, $n, x, y, $w);
                            }
                            _i += 1;
                        )*
                        _out
                    },
                    _ => self.elementwise::<$ty>(depth),
                };
                let b = match b {
                    Some(b) => Built { sym: false, ..b },
                    None => self.leaf(),
                };
                self.finish(b)
            })*
        }
    };
    (@c0 $s:ident, $n:literal, $x:ident, $y:ident, $w:ident) => { con0($s, &$x, &$y, |x, y, l| $w(TensorProduct::new(x, y), l)) };
    (@cd $s:ident, $n:literal, $x:ident, $y:ident, $w:ident) => { con_dyn($s, false, &$x, &$y, |x, y, l| $w(x.dot(y), l)) };
    (@c1 $s:ident, $n:literal, $x:ident, $y:ident, $w:ident) => { con1($s, $n, &$x, &$y, |x, y, l| $w(x.dot(y), l)) };
}
gens! {
    gen_a2 -> A2 { c0 k 0 w10 gen_a2 gen_s, c0 k 0 w10 gen_s gen_a2, c1 k 2 w10 gen_m22 gen_a2, c1 k 2 w10 gen_a2 gen_m22,
                   c1 k 3 w00 gen_a3 gen_m32, c1 k 3 w00 gen_m23 gen_a3 };
    gen_t -> T { };
    gen_v -> V { cd k 0 w00 gen_g gen_v, cd k 0 w00 gen_v gen_g };
    gen_m22 -> M22 { c0 k 0 w10 gen_m22 gen_s, c0 k 0 w10 gen_s gen_m22, c0 k 0 w10 gen_a2 gen_a2, c1 k 2 w10 gen_m22 gen_m22,
                     c1 k 3 w00 gen_m23 gen_m32 };
    gen_m23 -> M23 { c0 k 0 w00 gen_m23 gen_s, c0 k 0 w00 gen_s gen_m23, c0 k 0 w00 gen_a2 gen_a3, c1 k 2 w00 gen_m22 gen_m23,
                     c1 k 3 w00 gen_m23 gen_m33 };
    gen_m32 -> M32 { c0 k 0 w00 gen_a3 gen_a2, c1 k 2 w00 gen_m32 gen_m22, c1 k 3 w00 gen_m33 gen_m32 };
    gen_m33 -> M33 { c0 k 0 w10 gen_m33 gen_s, c0 k 0 w10 gen_s gen_m33, c0 k 0 w10 gen_a3 gen_a3, c1 k 3 w10 gen_m33 gen_m33,
                     c1 k 2 w00 gen_m32 gen_m23 };
    gen_r3 -> R3 { };
    gen_g -> G { cd k 0 w00 gen_g gen_g };
}

/// A random value: homogeneous, diagonal or mixed, with a liking for special elements.
pub fn value(dims: &[usize], (lo, hi): (f64, f64)) -> Tensor {
    let n: usize = dims.iter().product();
    match below(6) {
        1 => Tensor::full(dims, element(lo, hi)),
        2 if !dims.is_empty() && lo <= 0.0 && hi >= 0.0 => Tensor::diagonal(dims, element(lo, hi)),
        _ => Tensor { dims: dims.to_vec(), data: (0..n).map(|_| element(lo, hi)).collect() },
    }
}

pub fn element(lo: f64, hi: f64) -> f64 {
    if chance(1, 3) {
        let x = pick(&[1.0, 0.0, -1.0, 2.0, 0.5]);
        if x >= lo && x <= hi {
            return x;
        }
    }
    lo + (hi - lo) * (below(1 << 20) as f64 / (1 << 20) as f64)
}

// --------------------------------------------------------------------------------------------
// Untyped handle
// --------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum View {
    Value,
    Spec,
    Shape,
    /// `evaluate_adjoint`
    GradS(IdS),
    GradA(IdA3),
    /// `adjoint(..)` kept as an expression, then evaluated in dense or structured form, or asked its shape
    TreeS(IdS),
    TreeA(IdA3),
    TreeSpecS(IdS),
    TreeSpecA(IdA3),
    TreeShapeS(IdS),
    TreeShapeA(IdA3),
    DualS(IdS),
    DualA(IdA3),
    /// second order
    Hess(IdS, IdS),
    HessDual(IdS, IdS),
    /// gradient with respect to a variable of any other kind
    Jac(JHow, Any),
}

impl View {
    pub fn targets(&self) -> Vec<Any> {
        use View::*;
        match self {
            Value | Spec | Shape => vec![],
            GradS(t) | TreeS(t) | TreeSpecS(t) | TreeShapeS(t) | DualS(t) => vec![t.any()],
            GradA(t) | TreeA(t) | TreeSpecA(t) | TreeShapeA(t) | DualA(t) => vec![t.any()],
            Hess(t, u) | HessDual(t, u) => vec![t.any(), u.any()],
            Jac(_, t) => vec![*t],
        }
    }
    pub fn code(&self) -> u64 {
        use View::*;
        match self {
            Value => 0,
            Spec => 1,
            Shape => 2,
            GradS(_) => 3,
            GradA(_) => 4,
            TreeS(_) => 5,
            TreeA(_) => 6,
            TreeSpecS(_) => 7,
            TreeSpecA(_) => 8,
            DualS(_) => 9,
            DualA(_) => 10,
            Hess(..) => 11,
            HessDual(..) => 12,
            TreeShapeS(_) => 13,
            TreeShapeA(_) => 14,
            Jac(h, t) => 15 + *h as u64 + 8 * t.kind as u64,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Val(Tensor),
    /// A structured result made dense by the library and by the harness.
    Spec(Tensor, Tensor, &'static str),
    Shape(Vec<usize>),
    /// Value and gradient.
    Dual(Tensor, Tensor),
}

pub type Res = Result<Out, DErr>;

pub trait Obj {
    fn eval(&self, v: View, c: &mut SimCtx) -> Res;
    fn contains(&self, id: Any) -> bool;
    /// Contains, asked of the gradient expression.
    fn grad_contains(&self, v: View, id: Any) -> bool;
    fn levels(&self) -> (u8, u8);
    fn kind(&self) -> Kind;
    /// The kind of variable a linear tree can be differentiated by.
    fn target(&self) -> Option<Kind> { None }
    fn fmt(&self, debug: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn fmt_grad(&self, v: View, debug: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result;
}

pub fn out<X: KBuf>(x: X) -> Out {
    let t = crate::alloc::harness(|| x.to_tensor());
    Out::Val(t)
}
pub fn out_spec<X: KBuf>(s: Spec<X>) -> Out {
    let (mine, name) = crate::alloc::harness(|| match &s {
        Spec::Raw(b) => (b.to_tensor(), "raw"),
        Spec::Full(s, x) => (Tensor::full(&X::dims_of(s), x.0), "full"),
        Spec::Diagonal(s, x) => (Tensor::diagonal(&X::dims_of(s), x.0), "diagonal"),
        _ => panic!("harness: unknown representation"),
    });
    let b = s.unwrap();
    let lib = crate::alloc::harness(|| b.to_tensor());
    Out::Spec(lib, mine, name)
}
pub fn out_shape<X: KBuf>(s: ShapeOf<X>) -> Out { crate::alloc::harness(|| Out::Shape(X::dims_of(&s))) }
fn out_dual<X: KBuf, Y: KBuf>(v: X, g: Y) -> Out { crate::alloc::harness(|| Out::Dual(v.to_tensor(), g.to_tensor())) }

impl<X: KBufA> Obj for Dn<X> {
    fn eval(&self, v: View, c: &mut SimCtx) -> Res {
        match v {
            View::Value => self.obj.value(c).map(out),
            View::Spec => self.obj.spec(c).map(out_spec),
            View::Shape => self.obj.shape(c).map(out_shape::<X>),
            View::GradS(t) => self.obj.ev_adj_s(t, c).map(out),
            View::GradA(t) => self.obj.ev_adj_a(t, c).map(out),
            View::TreeS(t) => self.obj.adj_s(t).obj.value(c).map(out),
            View::TreeA(t) => self.obj.adj_a(t).obj.value(c).map(out),
            View::TreeSpecS(t) => self.obj.adj_s(t).obj.spec(c).map(out_spec),
            View::TreeSpecA(t) => self.obj.adj_a(t).obj.spec(c).map(out_spec),
            View::TreeShapeS(t) => self.obj.adj_s(t).obj.shape(c).map(out_shape::<X>),
            View::TreeShapeA(t) => self.obj.adj_a(t).obj.shape(c).map(out_shape::<X::AV>),
            View::DualS(t) => self.obj.dual_s(t, c).map(|(v, g)| out_dual(v, g)),
            View::DualA(t) => self.obj.dual_a(t, c).map(|(v, g)| out_dual(v, g)),
            View::Hess(t, u) => self.obj.adj_s(t).obj.ev_adj_s(u, c).map(out),
            View::HessDual(t, u) => self.obj.adj_s(t).obj.dual_s(u, c).map(|(v, g)| out_dual(v, g)),
            View::Jac(..) => panic!("harness: {:?}", v),
        }
    }
    fn contains(&self, id: Any) -> bool { self.obj.contains(id) }
    fn grad_contains(&self, v: View, id: Any) -> bool {
        match v {
            View::Value | View::Spec | View::Shape => self.obj.contains(id),
            View::GradS(t) | View::TreeS(t) | View::TreeSpecS(t) | View::DualS(t) | View::TreeShapeS(t) => self.obj.adj_s(t).obj.contains(id),
            View::GradA(t) | View::TreeA(t) | View::TreeSpecA(t) | View::DualA(t) | View::TreeShapeA(t) => self.obj.adj_a(t).obj.contains(id),
            View::Hess(t, u) | View::HessDual(t, u) => self.obj.adj_s(t).obj.adj_s(u).obj.contains(id),
            View::Jac(..) => panic!("harness: {:?}", v),
        }
    }
    fn levels(&self) -> (u8, u8) { (self.ls, self.la) }
    fn kind(&self) -> Kind { X::KIND }
    fn fmt(&self, debug: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if debug {
            self.obj.debug(f)
        } else {
            self.obj.display(f)
        }
    }
    fn fmt_grad(&self, v: View, debug: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match v {
            View::GradS(t) => Obj::fmt(&self.obj.adj_s(t), debug, f),
            View::GradA(t) => Obj::fmt(&self.obj.adj_a(t), debug, f),
            View::Hess(t, u) => Obj::fmt(&self.obj.adj_s(t).obj.adj_s(u), debug, f),
            _ => Obj::fmt(self, debug, f),
        }
    }
}

/// A generated expression of any kind.
#[derive(Clone)]
pub struct AnyBuilt {
    pub obj: Rc<dyn Obj>,
    pub ast: Rc<Ast>,
    pub lo: f64,
    pub hi: f64,
}

impl AnyBuilt {
    pub fn new<X: KBufA>(b: Built<X>) -> AnyBuilt { AnyBuilt { obj: Rc::new(b.dn), ast: b.ast, lo: b.lo, hi: b.hi } }

    /// A gradient of a linear tree, by one of the first `n` variables of the kind.
    pub fn jac_view(&self, kind: Kind, n: u32) -> View {
        let how = pick(&[JHow::Eval, JHow::Tree, JHow::TreeSpec, JHow::Dual, JHow::TreeShape]);
        View::Jac(how, Any { kind, n: below(n) as u8 })
    }

    /// A view of this expression, chosen by the simulator.
    pub fn any_view(&self, grads: bool) -> View {
        if let (true, Some(kind)) = (grads, self.obj.target()) {
            if chance(1, 2) {
                return self.jac_view(kind, 3);
            }
        }
        let (ls, la) = self.obj.levels();
        let k = below(if grads { 12 } else { 6 });
        match k {
            0..=2 => View::Value,
            3 | 4 => View::Spec,
            5 => View::Shape,
            _ => {
                let s = IdS(below(4) as u8);
                let a = IdA3(below(3) as u8);
                let use_a = la >= 1 && (ls == 0 || chance(1, 2));
                if use_a {
                    pick(&[View::GradA(a), View::DualA(a), View::TreeA(a), View::TreeSpecA(a), View::TreeShapeA(a)])
                } else if ls >= 2 && chance(1, 3) {
                    let u = IdS(below(4) as u8);
                    pick(&[View::Hess(s, u), View::HessDual(s, u)])
                } else if ls >= 1 {
                    pick(&[View::GradS(s), View::DualS(s), View::TreeS(s), View::TreeSpecS(s), View::TreeShapeS(s)])
                } else {
                    View::Value
                }
            },
        }
    }
}
