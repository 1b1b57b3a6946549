//! Expressions whose children are chosen at run time. Every operator is the library's own type; only
//! the link between an operator and its operands is a dynamic call.
use crate::{
    alloc::harness,
    store::{Any, Dims, IdA3, IdS, KBuf, SimCtx, TypedId, F},
};
use aegir::{
    buffers::{
        shapes::{IncompatibleShapes, Shape, ShapeOf},
        Spec,
    },
    errors::{BinaryError, NoError},
    fmt::{Expr, PreWrap, ToExpr},
    meta::SourceError,
    Contains, Differentiable, Function, Node,
};
use std::{fmt, rc::Rc};

// --------------------------------------------------------------------------------------------
// Errors
// --------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum EKind {
    Missing(Any),
    Unit,
    Shape(Vec<usize>, Vec<usize>),
}

/// An error of the library, with the operand sides (0 left, 1 right) it carries.
#[derive(Clone, Debug, PartialEq)]
pub struct DErr {
    pub path: Vec<u8>,
    pub kind: EKind,
    pub text: String,
}

impl fmt::Display for DErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) }
}
impl std::error::Error for DErr {}

pub trait IntoDErr {
    fn into_derr(self) -> DErr;
}
impl IntoDErr for DErr {
    fn into_derr(self) -> DErr { self }
}
impl IntoDErr for NoError {
    fn into_derr(self) -> DErr { match self {} }
}
impl<I: TypedId> IntoDErr for SourceError<I> {
    fn into_derr(self) -> DErr {
        harness(|| {
            let text = self.to_string();
            let SourceError::Undefined(i) = self;
            DErr { path: vec![], kind: EKind::Missing(i.any()), text }
        })
    }
}
impl IntoDErr for SourceError<()> {
    fn into_derr(self) -> DErr { harness(|| DErr { path: vec![], kind: EKind::Unit, text: self.to_string() }) }
}
impl<L: Shape + Dims, R: Shape + Dims> IntoDErr for IncompatibleShapes<L, R> {
    fn into_derr(self) -> DErr {
        harness(|| DErr { path: vec![], kind: EKind::Shape(self.left.dims(), self.right.dims()), text: self.to_string() })
    }
}
impl<L: IntoDErr + fmt::Display, R: IntoDErr + fmt::Display, O: IntoDErr + fmt::Display> IntoDErr for BinaryError<L, R, O> {
    fn into_derr(self) -> DErr {
        harness(|| {
            let text = self.to_string();
            let mut e = match self {
                BinaryError::Left(l) => {
                    let mut e = l.into_derr();
                    e.path.insert(0, 0);
                    e
                },
                BinaryError::Right(r) => {
                    let mut e = r.into_derr();
                    e.path.insert(0, 1);
                    e
                },
                BinaryError::Output(o) => o.into_derr(),
            };
            e.text = text;
            e
        })
    }
}

// --------------------------------------------------------------------------------------------
// Erased nodes
// --------------------------------------------------------------------------------------------
/// Which kind the gradient with respect to a 3-vector has.
pub trait KBufA: KBuf {
    type AV: KBufA;
}
impl KBufA for F {
    type AV = [F; 3];
}
impl KBufA for [F; 3] {
    type AV = [[F; 3]; 3];
}
macro_rules! self_av { ($($t:ty),*) => { $(impl KBufA for $t { type AV = $t; })* } }
self_av!([F; 2], Vec<F>, (F, F), [[F; 2]; 2], [[F; 3]; 2], [[F; 2]; 3], [[F; 3]; 3], crate::store::R3, crate::store::Grid<F>);

pub trait NodeB<V>: Function<SimCtx, Value = V, Error = <Self as NodeB<V>>::E> + Contains<Any> + fmt::Debug + 'static {
    type E: IntoDErr + std::error::Error;
}
impl<V, N> NodeB<V> for N
where
    N: Function<SimCtx, Value = V> + Contains<Any> + fmt::Debug + 'static,
    N::Error: IntoDErr,
{
    type E = N::Error;
}

pub trait Erased<V: KBufA> {
    fn value(&self, c: &mut SimCtx) -> Result<V, DErr>;
    fn spec(&self, c: &mut SimCtx) -> Result<Spec<V>, DErr>;
    fn shape(&self, c: &mut SimCtx) -> Result<ShapeOf<V>, DErr>;
    fn contains(&self, id: Any) -> bool;
    fn expr(&self) -> Expr;
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;

    fn adj_s(&self, _: IdS) -> Dn<V> { panic!("harness: not differentiable") }
    fn ev_adj_s(&self, _: IdS, _: &mut SimCtx) -> Result<V, DErr> { panic!("harness: not differentiable") }
    fn dual_s(&self, _: IdS, _: &mut SimCtx) -> Result<(V, V), DErr> { panic!("harness: not differentiable") }

    fn adj_a(&self, _: IdA3) -> Dn<V::AV> { panic!("harness: not differentiable") }
    fn ev_adj_a(&self, _: IdA3, _: &mut SimCtx) -> Result<V::AV, DErr> { panic!("harness: not differentiable") }
    fn dual_a(&self, _: IdA3, _: &mut SimCtx) -> Result<(V, V::AV), DErr> { panic!("harness: not differentiable") }
}

pub struct Dn<V: KBufA> {
    pub obj: Rc<dyn Erased<V>>,
    /// How often it can be differentiated by a scalar / by a 3-vector.
    pub ls: u8,
    pub la: u8,
}

impl<V: KBufA> Clone for Dn<V> {
    fn clone(&self) -> Self { Dn { obj: self.obj.clone(), ls: self.ls, la: self.la } }
}
impl<V: KBufA> fmt::Debug for Dn<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.obj.debug(f) }
}
impl<V: KBufA> fmt::Display for Dn<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.obj.display(f) }
}
impl<V: KBufA> Node for Dn<V> {}
impl<V: KBufA> ToExpr for Dn<V> {
    fn to_expr(&self) -> Expr { self.obj.expr() }
}
impl<V: KBufA> Contains<Any> for Dn<V> {
    fn contains(&self, id: Any) -> bool { self.obj.contains(id) }
}
impl<V: KBufA> Function<SimCtx> for Dn<V> {
    type Value = V;
    type Error = DErr;
    fn evaluate<CR: AsMut<SimCtx>>(&self, mut c: CR) -> Result<V, DErr> { self.obj.value(c.as_mut()) }
    fn evaluate_spec<CR: AsMut<SimCtx>>(&self, mut c: CR) -> Result<Spec<V>, DErr> { self.obj.spec(c.as_mut()) }
    fn evaluate_shape<CR: AsMut<SimCtx>>(&self, mut c: CR) -> Result<ShapeOf<V>, DErr> { self.obj.shape(c.as_mut()) }
}
impl<V: KBufA> Differentiable<IdS> for Dn<V> {
    type Adjoint = Dn<V>;
    fn adjoint(&self, t: IdS) -> Dn<V> { self.obj.adj_s(t) }
}
impl<V: KBufA> Differentiable<IdA3> for Dn<V> {
    type Adjoint = Dn<V::AV>;
    fn adjoint(&self, t: IdA3) -> Dn<V::AV> { self.obj.adj_a(t) }
}

// --------------------------------------------------------------------------------------------
// Wrappers: W<s><a>, differentiable s times by a scalar and a times by a 3-vector.
// --------------------------------------------------------------------------------------------
pub type ExprFn<N> = fn(&N) -> Expr;
pub type DispFn<N> = fn(&N, &mut fmt::Formatter<'_>) -> fmt::Result;

macro_rules! wrapper_struct {
    ($($W:ident)*) => { $(pub struct $W<N> { pub n: N, pub ex: ExprFn<N>, pub ds: DispFn<N> })* };
}
wrapper_struct!(W00 W10 W20 W01 W11 W21);

macro_rules! common {
    () => {
        fn value(&self, c: &mut SimCtx) -> Result<V, DErr> { self.n.evaluate(c).map_err(IntoDErr::into_derr) }
        fn spec(&self, c: &mut SimCtx) -> Result<Spec<V>, DErr> { self.n.evaluate_spec(c).map_err(IntoDErr::into_derr) }
        fn shape(&self, c: &mut SimCtx) -> Result<ShapeOf<V>, DErr> { self.n.evaluate_shape(c).map_err(IntoDErr::into_derr) }
        fn contains(&self, id: Any) -> bool { Contains::<Any>::contains(&self.n, id) }
        fn expr(&self) -> Expr { (self.ex)(&self.n) }
        fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (self.ds)(&self.n, f) }
        fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.n, f) }
    };
}
macro_rules! wrt_s {
    ($lower:ident, $l:expr) => {
        fn adj_s(&self, t: IdS) -> Dn<V> {
            let a = Differentiable::<IdS>::adjoint(&self.n, t);
            Dn { obj: Rc::new($lower { n: a, ex: ToExpr::to_expr, ds: fmt::Display::fmt }), ls: $l, la: 0 }
        }
        fn ev_adj_s(&self, t: IdS, c: &mut SimCtx) -> Result<V, DErr> {
            Differentiable::<IdS>::evaluate_adjoint(&self.n, t, c).map_err(IntoDErr::into_derr)
        }
        fn dual_s(&self, t: IdS, c: &mut SimCtx) -> Result<(V, V), DErr> {
            Differentiable::<IdS>::evaluate_dual(&self.n, t, c).map(|d| (d.value, d.adjoint)).map_err(IntoDErr::into_derr)
        }
    };
}
macro_rules! wrt_a {
    () => {
        fn adj_a(&self, t: IdA3) -> Dn<V::AV> {
            let a = Differentiable::<IdA3>::adjoint(&self.n, t);
            Dn { obj: Rc::new(W00 { n: a, ex: ToExpr::to_expr, ds: fmt::Display::fmt }), ls: 0, la: 0 }
        }
        fn ev_adj_a(&self, t: IdA3, c: &mut SimCtx) -> Result<V::AV, DErr> {
            Differentiable::<IdA3>::evaluate_adjoint(&self.n, t, c).map_err(IntoDErr::into_derr)
        }
        fn dual_a(&self, t: IdA3, c: &mut SimCtx) -> Result<(V, V::AV), DErr> {
            Differentiable::<IdA3>::evaluate_dual(&self.n, t, c).map(|d| (d.value, d.adjoint)).map_err(IntoDErr::into_derr)
        }
    };
}

type AdjS<N> = <N as Differentiable<IdS>>::Adjoint;
type AdjA<N> = <N as Differentiable<IdA3>>::Adjoint;

impl<V: KBufA, N: NodeB<V>> Erased<V> for W00<N> {
    common!();
}
impl<V: KBufA, N: NodeB<V> + Differentiable<IdS>> Erased<V> for W10<N>
where
    AdjS<N>: NodeB<V> + ToExpr + fmt::Display,
{
    common!();
    wrt_s!(W00, 0);
}
impl<V: KBufA, N: NodeB<V> + Differentiable<IdS>> Erased<V> for W20<N>
where
    AdjS<N>: NodeB<V> + ToExpr + fmt::Display + Differentiable<IdS>,
    AdjS<AdjS<N>>: NodeB<V> + ToExpr + fmt::Display,
{
    common!();
    wrt_s!(W10, 1);
}
impl<V: KBufA, N: NodeB<V> + Differentiable<IdS> + Differentiable<IdA3>> Erased<V> for W11<N>
where
    AdjS<N>: NodeB<V> + ToExpr + fmt::Display,
    AdjA<N>: NodeB<V::AV> + ToExpr + fmt::Display,
{
    common!();
    wrt_s!(W00, 0);
    wrt_a!();
}
impl<V: KBufA, N: NodeB<V> + Differentiable<IdS> + Differentiable<IdA3>> Erased<V> for W21<N>
where
    AdjS<N>: NodeB<V> + ToExpr + fmt::Display + Differentiable<IdS>,
    AdjS<AdjS<N>>: NodeB<V> + ToExpr + fmt::Display,
    AdjA<N>: NodeB<V::AV> + ToExpr + fmt::Display,
{
    common!();
    wrt_s!(W10, 1);
    wrt_a!();
}

impl<V: KBufA, N: NodeB<V> + Differentiable<IdA3>> Erased<V> for W01<N>
where
    AdjA<N>: NodeB<V::AV> + ToExpr + fmt::Display,
{
    common!();
    wrt_a!();
}

/// Levels of a new node: the wrapper's, limited by the operands'.
#[derive(Clone, Copy)]
pub struct Lv(pub u8, pub u8);
impl Lv {
    pub fn of<V: KBufA>(d: &Dn<V>) -> Lv { Lv(d.ls, d.la) }
    pub fn and(self, o: Lv) -> Lv { Lv(self.0.min(o.0), self.1.min(o.1)) }
}

macro_rules! mk {
    ($($W:ident $f:ident $s:literal $a:literal),*) => {$(
        pub fn $f<V: KBufA, N: NodeB<V> + ToExpr + fmt::Display>(n: N, lv: Lv) -> Dn<V> where $W<N>: Erased<V> + 'static {
            let lv = lv.and(Lv($s, $a));
            Dn { obj: Rc::new($W { n, ex: ToExpr::to_expr, ds: fmt::Display::fmt }), ls: lv.0, la: lv.1 }
        }
    )*};
}
mk!(W00 w00 0 0, W10 w10 1 0, W20 w20 2 0, W01 w01 0 1, W11 w11 1 1, W21 w21 2 1);

fn plain_expr<N: fmt::Debug>(n: &N) -> Expr { Expr::Text(PreWrap { text: format!("[{:?}]", n), needs_wrap: false }) }

macro_rules! mkp {
    ($($W:ident $f:ident $s:literal $a:literal),*) => {$(
        /// For nodes that cannot be turned into a formula by the library.
        pub fn $f<V: KBufA, N: NodeB<V>>(n: N, lv: Lv) -> Dn<V> where $W<N>: Erased<V> + 'static {
            let lv = lv.and(Lv($s, $a));
            Dn { obj: Rc::new($W { n, ex: plain_expr, ds: fmt::Debug::fmt }), ls: lv.0, la: lv.1 }
        }
    )*};
}
mkp!(W00 p00 0 0, W10 p10 1 0, W20 p20 2 0, W01 p01 0 1, W11 p11 1 1);

macro_rules! mkq {
    ($($W:ident $f:ident $s:literal $a:literal),*) => {$(
        /// For nodes that can be displayed, but not as a part of a formula.
        pub fn $f<V: KBufA, N: NodeB<V> + fmt::Display>(n: N, lv: Lv) -> Dn<V> where $W<N>: Erased<V> + 'static {
            let lv = lv.and(Lv($s, $a));
            Dn { obj: Rc::new($W { n, ex: plain_expr, ds: fmt::Display::fmt }), ls: lv.0, la: lv.1 }
        }
    )*};
}
mkq!(W00 q00 0 0, W21 q21 2 1);
