//! Expressions of further kinds differentiated with respect to buffers of further kinds (matrices by
//! matrices, tensors by vectors, ...): the gradients have up to four axes. Only linear operators are
//! differentiable there, so the trees are linear; every operator is the library's own type.
use crate::{
    alloc::harness,
    ast::{Ast, B, U},
    build::*,
    node::{DErr, DispFn, ExprFn, IntoDErr, NodeB},
    sim::{below, chance},
    store::{Any, Buf, Dims, Dyn, Grid, IdA2, IdA3, IdD, IdG, IdM22, IdM23, IdS, KBuf, Kind, SimCtx, Tensor, TypedId, F, R3, SLOT},
};
use aegir::{
    buffers::{
        shapes::ShapeOf, Buffer, Spec,
    },
    fmt::{Expr, PreWrap, ToExpr},
    meta::{Cached, Constant, Variable},
    ops::*,
    Contains, Differentiable, Function, Node,
};
use std::{fmt, rc::Rc};

/// How a gradient is asked for.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum JHow {
    Eval,
    Tree,
    TreeSpec,
    TreeShape,
    Dual,
}

/// Buffers that can be turned into tensors.
pub trait Densify: Buffer<Field = F> {
    fn dense(&self) -> Tensor;
    fn shape_dims(s: &ShapeOf<Self>) -> Vec<usize>;
}
impl<X: KBuf> Densify for X {
    fn dense(&self) -> Tensor { self.to_tensor() }
    fn shape_dims(s: &ShapeOf<X>) -> Vec<usize> { X::dims_of(s) }
}
macro_rules! densify {
    ($($t:ty: [$($d:literal)*] $($fl:ident)*;)*) => {$(
        impl Densify for $t {
            fn dense(&self) -> Tensor { Tensor { dims: vec![$($d),*], data: self.iter()$(.$fl())*.map(|x| x.0).collect() } }
            fn shape_dims(s: &ShapeOf<$t>) -> Vec<usize> { s.dims() }
        }
    )*};
}
pub type R222 = [[[F; 2]; 2]; 2];
pub type R2222 = [[[[F; 2]; 2]; 2]; 2];
pub type R2323 = [[[[F; 3]; 2]; 3]; 2];
pub type R2322 = [[[[F; 2]; 2]; 3]; 2];
pub type R333 = [[[F; 3]; 3]; 3];
densify! {
    R222: [2 2 2] flatten flatten;
    R333: [3 3 3] flatten flatten;
    R2222: [2 2 2 2] flatten flatten flatten;
    R2323: [2 3 2 3] flatten flatten flatten;
    R2322: [2 3 2 2] flatten flatten flatten;
}
pub type D1 = Dyn<F, 1>;
pub type D3 = Dyn<F, 3>;
pub type D4 = Dyn<F, 4>;
macro_rules! densify_dyn {
    ($($t:ty)*) => {$(
        impl Densify for $t {
            fn dense(&self) -> Tensor { Tensor { dims: self.dims.to_vec(), data: self.data.iter().map(|x| x.0).collect() } }
            fn shape_dims(s: &ShapeOf<$t>) -> Vec<usize> { s.dims() }
        }
    )*};
}
densify_dyn! { D3 D4 }


// --------------------------------------------------------------------------------------------
// Erased nodes
// --------------------------------------------------------------------------------------------
pub trait Jv<V: Buffer> {
    fn value(&self, c: &mut SimCtx) -> Result<V, DErr>;
    fn spec(&self, c: &mut SimCtx) -> Result<Spec<V>, DErr>;
    fn shape(&self, c: &mut SimCtx) -> Result<ShapeOf<V>, DErr>;
    fn contains(&self, id: Any) -> bool;
    fn expr(&self) -> Expr;
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;
}
pub trait Jn<V: Buffer, J: Buffer, T>: Jv<V> {
    fn jac(&self, t: T) -> Rc<dyn Jv<J>>;
    fn ev(&self, t: T, c: &mut SimCtx) -> Result<J, DErr>;
    fn dual(&self, t: T, c: &mut SimCtx) -> Result<(V, J), DErr>;
}

struct P<N> {
    n: N,
    ex: ExprFn<N>,
    ds: DispFn<N>,
}

impl<V: Buffer, N: NodeB<V>> Jv<V> for P<N> {
    fn value(&self, c: &mut SimCtx) -> Result<V, DErr> { self.n.evaluate(c).map_err(IntoDErr::into_derr) }
    fn spec(&self, c: &mut SimCtx) -> Result<Spec<V>, DErr> { self.n.evaluate_spec(c).map_err(IntoDErr::into_derr) }
    fn shape(&self, c: &mut SimCtx) -> Result<ShapeOf<V>, DErr> { self.n.evaluate_shape(c).map_err(IntoDErr::into_derr) }
    fn contains(&self, id: Any) -> bool { Contains::<Any>::contains(&self.n, id) }
    fn expr(&self) -> Expr { (self.ex)(&self.n) }
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (self.ds)(&self.n, f) }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.n, f) }
}
impl<V: Buffer + 'static, J: Buffer + 'static, T: TypedId, N: NodeB<V> + Differentiable<T>> Jn<V, J, T> for P<N>
where
    N::Adjoint: NodeB<J> + ToExpr + fmt::Display,
{
    fn jac(&self, t: T) -> Rc<dyn Jv<J>> { Rc::new(P { n: self.n.adjoint(t), ex: ToExpr::to_expr, ds: fmt::Display::fmt }) }
    fn ev(&self, t: T, c: &mut SimCtx) -> Result<J, DErr> { self.n.evaluate_adjoint(t, c).map_err(IntoDErr::into_derr) }
    fn dual(&self, t: T, c: &mut SimCtx) -> Result<(V, J), DErr> {
        self.n.evaluate_dual(t, c).map(|d| (d.value, d.adjoint)).map_err(IntoDErr::into_derr)
    }
}

macro_rules! link {
    ([$($g:tt)*] $t:ty, $v:ident) => {
        impl<$($g)*> fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.debug(f) }
        }
        impl<$($g)*> fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.display(f) }
        }
        impl<$($g)*> Clone for $t {
            fn clone(&self) -> Self { Self(self.0.clone()) }
        }
        impl<$($g)*> Node for $t {}
        impl<$($g)*> ToExpr for $t {
            fn to_expr(&self) -> Expr { self.0.expr() }
        }
        impl<$($g)*> Contains<Any> for $t {
            fn contains(&self, id: Any) -> bool { self.0.contains(id) }
        }
        impl<$($g)*> Function<SimCtx> for $t {
            type Value = $v;
            type Error = DErr;
            fn evaluate<CR: AsMut<SimCtx>>(&self, mut c: CR) -> Result<$v, DErr> { self.0.value(c.as_mut()) }
            fn evaluate_spec<CR: AsMut<SimCtx>>(&self, mut c: CR) -> Result<Spec<$v>, DErr> { self.0.spec(c.as_mut()) }
            fn evaluate_shape<CR: AsMut<SimCtx>>(&self, mut c: CR) -> Result<ShapeOf<$v>, DErr> { self.0.shape(c.as_mut()) }
        }
    };
}
pub struct Dv<J: Buffer>(Rc<dyn Jv<J>>);
pub struct Dj<V: Buffer, J: Buffer, T>(Rc<dyn Jn<V, J, T>>);
link!([J: Buffer] Dv<J>, J);
link!([V: Buffer, J: Buffer, T: TypedId] Dj<V, J, T>, V);

impl<V: Buffer, J: Buffer, T: TypedId> Differentiable<T> for Dj<V, J, T> {
    type Adjoint = Dv<J>;
    fn adjoint(&self, t: T) -> Dv<J> { Dv(self.0.jac(t)) }
}

impl<V: KBuf, J: Densify + Buffer<Field = F> + 'static, T: TypedId> Obj for Dj<V, J, T> {
    fn eval(&self, v: View, c: &mut SimCtx) -> Res {
        let dense = |j: J| {
            let t = harness(|| j.dense());
            drop(j);
            t
        };
        match v {
            View::Value => self.0.value(c).map(out),
            View::Spec => self.0.spec(c).map(out_spec),
            View::Shape => self.0.shape(c).map(out_shape::<V>),
            View::Jac(how, t) => {
                let t = T::of(t.n);
                match how {
                    JHow::Eval => self.0.ev(t, c).map(dense).map(Out::Val),
                    JHow::Tree => self.0.jac(t).value(c).map(dense).map(Out::Val),
                    JHow::TreeSpec => self.0.jac(t).spec(c).map(|s| {
                        let (mine, name) = harness(|| match &s {
                            Spec::Raw(b) => (b.dense(), "raw"),
                            Spec::Full(s, x) => (Tensor::full(&J::shape_dims(s), x.0), "full"),
                            Spec::Diagonal(s, x) => (Tensor::diagonal(&J::shape_dims(s), x.0), "diagonal"),
                            _ => panic!("harness: unknown representation"),
                        });
                        Out::Spec(dense(s.unwrap()), mine, name)
                    }),
                    JHow::TreeShape => self.0.jac(t).shape(c).map(|s| harness(|| Out::Shape(J::shape_dims(&s)))),
                    JHow::Dual => self.0.dual(t, c).map(|(v, j)| harness(|| Out::Dual(v.to_tensor(), j.dense()))),
                }
            },
            _ => panic!("harness: {:?} of a linear tree", v),
        }
    }
    fn contains(&self, id: Any) -> bool { self.0.contains(id) }
    fn grad_contains(&self, v: View, id: Any) -> bool {
        match v {
            View::Jac(_, t) => self.0.jac(T::of(t.n)).contains(id),
            _ => self.0.contains(id),
        }
    }
    fn levels(&self) -> (u8, u8) { (0, 0) }
    fn target(&self) -> Option<Kind> { Some(T::KIND) }
    fn kind(&self) -> Kind { V::KIND }
    fn fmt(&self, debug: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if debug {
            self.0.debug(f)
        } else {
            self.0.display(f)
        }
    }
    fn fmt_grad(&self, v: View, debug: bool, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match v {
            View::Jac(_, t) => {
                let j = self.0.jac(T::of(t.n));
                if debug {
                    j.debug(f)
                } else {
                    j.display(f)
                }
            },
            _ => self.fmt(debug, f),
        }
    }
}

// --------------------------------------------------------------------------------------------
// Generated trees
// --------------------------------------------------------------------------------------------
fn plain_expr<N: fmt::Debug>(n: &N) -> Expr { Expr::Text(PreWrap { text: format!("[{:?}]", n), needs_wrap: false }) }

struct Tree<D> {
    d: D,
    ast: Rc<Ast>,
    lo: f64,
    hi: f64,
}

macro_rules! trees {
    ({ $($name:ident $memo:ident: $v:ty, $j:ty, $t:ty;)* } { $($dname:ident $dmemo:ident: $dv:ty, $dj:ty, $dt:ty;)* }) => {
        trees! { @fns $($name $memo: $v, $j, $t;)* }
        trees! { @fns $($dname $dmemo: $dv, $dj, $dt;)* }

        /// A random linear tree, of a random kind, and differentiable by variables of a random kind.
        pub fn gen(g: &mut Gen, depth: u32) -> AnyBuilt {
            if g.o.dynamic && chance(1, 3) {
                return gen_dyn(g, depth);
            }
            trees!(@choose g, depth, $($name)*)
        }

        /// The same over buffers of run-time size.
        pub fn gen_dyn(g: &mut Gen, depth: u32) -> AnyBuilt {
            trees!(@choose g, depth, $($dname)*)
        }
    };
    (@choose $g:ident, $depth:ident, $($name:ident)*) => {{
        let mut total = 0;
        $(let _ = stringify!($name); total += 1;)*
        let which = below(total);
        let mut i = 0;
        $(
            if which == i {
                let t = $name($g, $depth.min(3));
                return AnyBuilt { obj: Rc::new(t.d), ast: t.ast, lo: t.lo, hi: t.hi };
            }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
    (@fns $($name:ident $memo:ident: $v:ty, $j:ty, $t:ty;)*) => {
        $(
            fn $name(g: &mut Gen, depth: u32) -> Tree<Dj<$v, $j, $t>> {
                type D = Dj<$v, $j, $t>;
                fn op<N: NodeB<$v> + Differentiable<$t> + ToExpr + fmt::Display>(n: N) -> D where N::Adjoint: NodeB<$j> + ToExpr + fmt::Display {
                    Dj(Rc::new(P { n, ex: ToExpr::to_expr, ds: fmt::Display::fmt }))
                }
                fn raw<N: NodeB<$v> + Differentiable<$t>>(n: N) -> D where N::Adjoint: NodeB<$j> + ToExpr + fmt::Display {
                    Dj(Rc::new(P { n, ex: plain_expr, ds: fmt::Debug::fmt }))
                }
                g.size += 1;
                let fixed = crate::refer::static_dims(Any { kind: <$v as KBuf>::KIND, n: 0 });
                let mut which = if depth == 0 { below(3) } else { below(8) };
                if which == 2 && fixed.is_none() {
                    which = 0;
                }
                let r = match which {
                    2 => {
                        let t = value(&fixed.unwrap(), (-2.0, 2.0));
                        Tree { d: raw(Constant(<$v>::from_tensor(&t))), ast: Rc::new(Ast::Con(t)), lo: -2.0, hi: 2.0 }
                    },
                    0 | 1 => {
                        let n = below(3) as u8;
                        let id = Any { kind: <$v as KBuf>::KIND, n };
                        let (lo, hi) = range_of(id);
                        g.vars.insert(id, (lo, hi));
                        Tree { d: op(Variable(<$v as KBuf>::Id::of(n))), ast: Rc::new(Ast::Var(id)), lo, hi }
                    },
                    3 | 4 => {
                        let x = $name(g, depth - 1);
                        let u = crate::sim::pick(&[U::Negate, U::Double, U::AddOne, U::SubOne, U::OneSub]);
                        let (lo, hi) = u.image(x.lo, x.hi).unwrap();
                        let d = match u {
                            U::Negate => op(Negate(x.d)),
                            U::Double => op(Double(x.d)),
                            U::AddOne => op(AddOne(x.d)),
                            U::SubOne => op(SubOne(x.d)),
                            _ => op(OneSub(x.d)),
                        };
                        Tree { d, ast: Rc::new(Ast::Un(u, x.ast)), lo, hi }
                    },
                    _ => {
                        let x = $name(g, depth - 1);
                        let y = $name(g, depth - 1);
                        if chance(1, 2) {
                            Tree { d: op(Add(x.d, y.d)), ast: Rc::new(Ast::Bin(B::Add, x.ast, y.ast)), lo: x.lo + y.lo, hi: x.hi + y.hi }
                        } else {
                            Tree { d: op(Sub(x.d, y.d)), ast: Rc::new(Ast::Bin(B::Sub, x.ast, y.ast)), lo: x.lo - y.hi, hi: x.hi - y.lo }
                        }
                    },
                };
                if trees!(@can $memo) && g.o.cache > 0 && g.slots.len() < 6 && chance(g.o.cache, 64) {
                    let kind = <$v as KBuf>::KIND;
                    let n = SLOT + g.slots.keys().filter(|s| s.kind == kind).count() as u8;
                    let id = Any { kind, n };
                    g.slots.insert(id, (r.lo, r.hi));
                    g.size += 1;
                    let d = trees!(@memo $memo raw, r.d, n);
                    return Tree { d, ast: Rc::new(Ast::Cache(id, r.ast)), ..r };
                }
                r
            }
        )*
    };
    // a memo can only be differentiated by variables of the kind of its slot
    (@can memo) => { true };
    (@can none) => { false };
    (@memo memo $raw:ident, $d:expr, $n:expr) => { $raw(Cached { node: $d, ident: TypedId::of($n) }) };
    (@memo none $raw:ident, $d:expr, $n:expr) => {{ let _ = $n; $d }};
}
trees! { {
    m22_by_m22 memo: M22, R2222, IdM22;
    m23_by_m23 memo: M23, R2323, IdM23;
    a2_by_a2 memo: A2, M22, IdA2;
    a3_by_a2 none: A3, M32, IdA2;
    a2_by_a3 none: A2, M23, IdA3;
    m22_by_a2 none: M22, R222, IdA2;
    a2_by_m22 none: A2, R222, IdM22;
    m33_by_a3 none: M33, R333, IdA3;
    s_by_m22 none: F, M22, IdM22;
    s_by_a2 none: F, A2, IdA2;
    r3_by_a2 none: R3, R2322, IdA2;
    m23_by_s none: M23, M23, IdS;
    r3_by_s none: R3, R3, IdS;
    t_by_a3 none: T, M23, IdA3;
} {
    d_by_d memo: D1, Grid<F>, IdD;
    g_by_g memo: Grid<F>, D4, IdG;
    g_by_d none: Grid<F>, D3, IdD;
    d_by_g none: D1, D3, IdG;
} }
