//! The simulated context: a store of typed variables shared by several clients. Every access is a
//! point where the scheduler may switch clients, crash the client, hide a variable, lose a write or
//! choose how the value is represented. Values are kept in an untyped form of our own.
use crate::{alloc::harness, field::SimF, sim};
use aegir::{
    buffers::{
        shapes::{Broadcast, IncompatibleShapes, SDynamic, Shape, ShapeOf, Shaped, S0},
        Buffer, Class, Contract, Scalar, Spec, ZipFold, ZipMap,
    },
    Context, Identifier, Read, Write,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt,
    rc::Rc,
};

pub type F = SimF;

// --------------------------------------------------------------------------------------------
// Tensors, kinds, identifiers
// --------------------------------------------------------------------------------------------
#[derive(Clone, PartialEq)]
pub struct Tensor {
    pub dims: Vec<usize>,
    pub data: Vec<f64>,
}

impl Tensor {
    pub fn scalar(x: f64) -> Tensor { Tensor { dims: vec![], data: vec![x] } }
    pub fn full(dims: &[usize], x: f64) -> Tensor { Tensor { dims: dims.to_vec(), data: vec![x; dims.iter().product()] } }
    pub fn diagonal(dims: &[usize], x: f64) -> Tensor {
        let mut t = Tensor::full(dims, 0.0);
        for k in 0..t.data.len() {
            if is_diag(dims, k) {
                t.data[k] = x;
            }
        }
        t
    }
    pub fn same_bits(&self, o: &Tensor) -> bool {
        self.dims == o.dims && self.data.len() == o.data.len() && self.data.iter().zip(&o.data).all(|(a, b)| a.to_bits() == b.to_bits())
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7;
        for d in &self.dims {
            sim::hash_into(&mut h, *d as u64);
        }
        for x in &self.data {
            sim::hash_into(&mut h, x.to_bits());
        }
        h
    }
    /// The value as Full(x), if it is homogeneous.
    pub fn as_full(&self) -> Option<f64> {
        let x = *self.data.first()?;
        self.data.iter().all(|y| y.to_bits() == x.to_bits()).then_some(x)
    }
    /// The value as Diagonal(x), if it is one.
    pub fn as_diagonal(&self) -> Option<f64> {
        let d = (0..self.data.len()).find(|k| is_diag(&self.dims, *k))?;
        let x = self.data[d];
        (0..self.data.len())
            .all(|k| self.data[k].to_bits() == if is_diag(&self.dims, k) { x.to_bits() } else { 0f64.to_bits() })
            .then_some(x)
    }
}

impl fmt::Debug for Tensor {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.dims.is_empty() {
            write!(f, "{:?}", self.data[0])
        } else {
            write!(f, "{:?}{:?}", self.dims, self.data)
        }
    }
}

pub fn index(dims: &[usize], mut k: usize) -> Vec<usize> {
    let mut ix = vec![0; dims.len()];
    for a in (0..dims.len()).rev() {
        ix[a] = k % dims[a];
        k /= dims[a];
    }
    ix
}

pub fn is_diag(dims: &[usize], k: usize) -> bool {
    let ix = index(dims, k);
    ix.windows(2).all(|w| w[0] == w[1])
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Kind {
    S,
    A2,
    A3,
    V,
    T,
    M22,
    M23,
    M32,
    M33,
    R3,
    G,
    D,
}

impl Kind {
    /// Buffers of run-time size.
    pub fn dynamic(self) -> bool { matches!(self, Kind::V | Kind::G | Kind::D) }
}

/// Any identifier, typed at run time.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Any {
    pub kind: Kind,
    pub n: u8,
}

pub const SLOT: u8 = 100;

impl Any {
    pub fn is_slot(&self) -> bool { self.n >= SLOT }
}

impl fmt::Debug for Any {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}{}", self.kind, self.n) }
}
impl fmt::Display for Any {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}{}", self.kind, self.n) }
}
impl Identifier for Any {}

pub trait TypedId: Identifier + PartialEq<Any> + 'static {
    const KIND: Kind;
    fn num(&self) -> u8;
    fn of(n: u8) -> Self;
    fn any(&self) -> Any { Any { kind: Self::KIND, n: self.num() } }
}

macro_rules! ids {
    ($($id:ident = $k:ident),*) => {
        $(
            #[derive(Clone, Copy, Eq)]
            pub struct $id(pub u8);
            impl TypedId for $id {
                const KIND: Kind = Kind::$k;
                fn num(&self) -> u8 { self.0 }
                fn of(n: u8) -> Self { $id(n) }
            }
            impl fmt::Debug for $id {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}{}", stringify!($k), self.0) }
            }
            impl fmt::Display for $id {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}{}", stringify!($k), self.0) }
            }
            impl Identifier for $id {}
            impl PartialEq<Any> for $id { fn eq(&self, o: &Any) -> bool { self.any() == *o } }
            impl PartialEq<$id> for Any { fn eq(&self, o: &$id) -> bool { *self == o.any() } }
        )*
        ids!(@cross [$($id),*] [$($id),*]);
    };
    (@cross [$($a:ident),*] $bs:tt) => { $(ids!(@row $a $bs);)* };
    (@row $a:ident [$($b:ident),*]) => {
        $(impl PartialEq<$b> for $a { fn eq(&self, o: &$b) -> bool { self.any() == o.any() } })*
    };
}
ids!(
    IdS = S, IdA2 = A2, IdA3 = A3, IdV = V, IdT = T, IdM22 = M22, IdM23 = M23, IdM32 = M32, IdM33 = M33, IdR3 = R3, IdG = G, IdD = D
);

// --------------------------------------------------------------------------------------------
// Buffers written by a user of the library: tensors of run-time size that only define what the traits
// require, so that their provided methods run too. Their class says how it combines with itself and
// with scalars, so expressions over them can be differentiated.
// --------------------------------------------------------------------------------------------
pub struct Grids;

#[derive(Clone, Debug, PartialEq)]
pub struct Dyn<E, const N: usize> {
    pub dims: [usize; N],
    pub data: Vec<E>,
}
pub type Grid<E> = Dyn<E, 2>;

impl aegir::meta::Precedence<Grids, Grids> for aegir::meta::Prec {
    type Class = Grids;
}
impl aegir::meta::Precedence<Grids, aegir::buffers::Scalars> for aegir::meta::Prec {
    type Class = Grids;
}
impl aegir::meta::Precedence<aegir::buffers::Scalars, Grids> for aegir::meta::Prec {
    type Class = Grids;
}

fn flat_index<const N: usize>(dims: &[usize; N], ix: &[usize; N]) -> usize {
    let mut k = 0;
    for a in 0..N {
        k = k * dims[a] + ix[a];
    }
    k
}

impl<const N: usize> Class<SDynamic<N>> for Grids {
    type Buffer<E: Scalar> = Dyn<E, N>;

    fn build<E: Scalar>(s: SDynamic<N>, f: impl Fn([usize; N]) -> E) -> Dyn<E, N> {
        let n: usize = s.0.iter().product();
        let mut data = Vec::with_capacity(n);
        for mut k in 0..n {
            let mut ix = [0; N];
            for a in (0..N).rev() {
                ix[a] = k % s.0[a];
                k /= s.0[a];
            }
            data.push(f(ix));
        }
        Dyn { dims: s.0, data }
    }

    fn build_subset<E: Scalar>(s: SDynamic<N>, base: E, ixs: impl Iterator<Item = [usize; N]>, f: impl Fn([usize; N]) -> E) -> Dyn<E, N> {
        let mut g = Dyn { dims: s.0, data: vec![base; s.0.iter().product()] };
        for ix in ixs {
            let k = flat_index(&s.0, &ix);
            g.data[k] = f(ix);
        }
        g
    }
}

impl<E: Scalar, const N: usize> Shaped for Dyn<E, N> {
    type Shape = SDynamic<N>;
    fn shape(&self) -> SDynamic<N> { SDynamic(self.dims) }
}

impl<E: Scalar, const N: usize> Buffer for Dyn<E, N> {
    type Class = Grids;
    type Field = E;
    fn class() -> Grids { Grids }
    fn get_unchecked(&self, ix: [usize; N]) -> E { self.data[flat_index(&self.dims, &ix)] }
    fn map<A: Scalar, M: Fn(E) -> A>(self, f: M) -> Dyn<A, N> { Dyn { dims: self.dims, data: self.data.into_iter().map(f).collect() } }
    fn mutate<M: Fn(E) -> E>(&mut self, f: M) {
        for x in self.data.iter_mut() {
            *x = f(*x);
        }
    }
}

impl<E: Scalar, const N: usize> ZipMap for Dyn<E, N> {
    type Output<A: Scalar> = Dyn<A, N>;
    fn zip_map<A: Scalar, M: Fn(E, E) -> A>(self, r: &Dyn<E, N>, f: M) -> Result<Dyn<A, N>, IncompatibleShapes<SDynamic<N>>> {
        let s = self.shape().broadcast(r.shape())?;
        Ok(Dyn { dims: s.0, data: self.data.into_iter().zip(r.data.iter()).map(|(x, y)| f(x, *y)).collect() })
    }
    fn zip_shape(self, s: SDynamic<N>) -> Result<Dyn<E, N>, IncompatibleShapes<SDynamic<N>>> {
        self.shape().broadcast(s)?;
        Ok(self)
    }
}

impl<E: Scalar, const N: usize> ZipFold for Dyn<E, N> {
    fn zip_fold<A: Scalar, M: Fn(A, (E, E)) -> A>(&self, r: &Dyn<E, N>, init: A, f: M) -> Result<A, IncompatibleShapes<SDynamic<N>>> {
        self.shape().broadcast(r.shape())?;
        Ok(self.data.iter().zip(&r.data).fold(init, |a, (x, y)| f(a, (*x, *y))))
    }
}

impl<const N: usize> ZipMap<F> for Dyn<F, N> {
    type Output<A: Scalar> = Dyn<A, N>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, r: &F, f: M) -> Result<Dyn<A, N>, IncompatibleShapes<SDynamic<N>, S0>> {
        Ok(self.map(|x| f(x, *r)))
    }
    fn zip_shape(self, _: S0) -> Result<Dyn<F, N>, IncompatibleShapes<SDynamic<N>, S0>> { Ok(self) }
}

impl<const N: usize> ZipMap<Dyn<F, N>> for F {
    type Output<A: Scalar> = Dyn<A, N>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, r: &Dyn<F, N>, f: M) -> Result<Dyn<A, N>, IncompatibleShapes<S0, SDynamic<N>>> {
        Ok(r.map_ref(|y| f(self, y)))
    }
    fn zip_shape(self, s: SDynamic<N>) -> Result<Dyn<F, N>, IncompatibleShapes<S0, SDynamic<N>>> { Ok(Grids::full(s, self)) }
}

/// What a user's own contraction has to provide: sizes checked, then rows times columns. Homogeneous
/// operands are kept so.
fn inner<A: KBuf, B: KBuf, C: KBuf, const N: usize>(x: &ShapeOf<A>, y: &ShapeOf<B>) -> Option<ShapeOf<C>> {
    let (p, q) = (A::dims_of(x), B::dims_of(y));
    if p[p.len() - N..] != q[..N] {
        return None;
    }
    let d: Vec<usize> = p[..p.len() - N].iter().chain(&q[N..]).cloned().collect();
    Some(C::shape_of(&d))
}

macro_rules! user_contract {
    ($($x:ty, $y:ty, $n:literal => $z:ty;)*) => {$(
        impl Contract<$y, $n> for $x {
            type Output = $z;
            fn contract(self, y: $y) -> Result<$z, IncompatibleShapes<ShapeOf<$x>, ShapeOf<$y>>> {
                let (l, r) = (self.shape(), y.shape());
                let s = inner::<$x, $y, $z, $n>(&l, &r).ok_or(IncompatibleShapes { left: l, right: r })?;
                let p = <$x as Buf>::dims_of(&l);
                let m: usize = p[p.len() - $n..].iter().product();
                let q = <$y as Buf>::dims_of(&r);
                let cols: usize = q[$n..].iter().product();
                let at = |k: usize| {
                    let (i, j) = if cols == 0 { (0, 0) } else { (k / cols, k % cols) };
                    let mut acc = <F as num_traits::Zero>::zero();
                    for l in 0..m {
                        acc = acc + self.data_at(i * m + l) * y.data_at(l * cols + j);
                    }
                    acc
                };
                let dims = <$z as Buf>::dims_of(&s);
                Ok(<$z as Flat>::flat(&dims, at))
            }
            fn contract_spec(x: Spec<$x>, y: Spec<$y>) -> Result<Spec<$z>, IncompatibleShapes<ShapeOf<$x>, ShapeOf<$y>>> {
                if let (Spec::Full(l, a), Spec::Full(r, b)) = (&x, &y) {
                    let s = inner::<$x, $y, $z, $n>(l, r).ok_or(IncompatibleShapes { left: *l, right: *r })?;
                    let p = <$x as Buf>::dims_of(l);
                    let m: usize = p[p.len() - $n..].iter().product();
                    let mut acc = <F as num_traits::Zero>::zero();
                    for _ in 0..m {
                        acc = acc + *a * *b;
                    }
                    return Ok(Spec::Full(s, acc));
                }
                <$x as Contract<$y, $n>>::contract(x.unwrap(), y.unwrap()).map(Spec::Raw)
            }
            fn contract_shape(x: ShapeOf<$x>, y: ShapeOf<$y>) -> Result<ShapeOf<$z>, IncompatibleShapes<ShapeOf<$x>, ShapeOf<$y>>> {
                inner::<$x, $y, $z, $n>(&x, &y).ok_or(IncompatibleShapes { left: x, right: y })
            }
        }
    )*};
}
trait Flat {
    fn flat(dims: &[usize], f: impl Fn(usize) -> F) -> Self;
    fn data_at(&self, k: usize) -> F;
}
impl Flat for F {
    fn flat(_: &[usize], f: impl Fn(usize) -> F) -> F { f(0) }
    fn data_at(&self, _: usize) -> F { *self }
}
impl Flat for Vec<F> {
    fn flat(d: &[usize], f: impl Fn(usize) -> F) -> Vec<F> { (0..d[0]).map(f).collect() }
    fn data_at(&self, k: usize) -> F { self[k] }
}
impl<const N: usize> Flat for Dyn<F, N> {
    fn flat(d: &[usize], f: impl Fn(usize) -> F) -> Dyn<F, N> {
        Dyn { dims: std::array::from_fn(|i| d[i]), data: (0..d.iter().product()).map(f).collect() }
    }
    fn data_at(&self, k: usize) -> F { self.data[k] }
}
user_contract! {
    Grid<F>, Grid<F>, 1 => Grid<F>;
    Grid<F>, Grid<F>, 2 => F;
    Grid<F>, Vec<F>, 1 => Vec<F>;
    Vec<F>, Grid<F>, 1 => Vec<F>;
    Dyn<F, 1>, Dyn<F, 1>, 1 => F;
    Grid<F>, Dyn<F, 1>, 1 => Dyn<F, 1>;
    Dyn<F, 1>, Grid<F>, 1 => Dyn<F, 1>;
}

// --------------------------------------------------------------------------------------------
// Conversion between the library's buffers and tensors (without the library's own code)
// --------------------------------------------------------------------------------------------
/// A buffer the harness can take apart and build.
pub trait Buf: Buffer<Field = F> + fmt::Debug + 'static {
    fn to_tensor(&self) -> Tensor;
    fn from_tensor(t: &Tensor) -> Self;
    fn shape_of(dims: &[usize]) -> ShapeOf<Self>;
    fn dims_of(s: &ShapeOf<Self>) -> Vec<usize>;
    /// The only dimensions it can have, if so.
    fn fixed_dims() -> Option<Vec<usize>>;
}

/// A buffer that identifiers exist for.
pub trait KBuf: Buf {
    const KIND: Kind;
    type Id: TypedId;
}

/// Dimensions of a shape, read off its debug text-free public structure.
pub trait Dims: Shape {
    fn dims(&self) -> Vec<usize>;
}
impl Dims for S0 {
    fn dims(&self) -> Vec<usize> { vec![] }
}
impl<const A: usize> Dims for aegir::buffers::shapes::S1<A> {
    fn dims(&self) -> Vec<usize> { vec![A] }
}
impl<const A: usize, const B: usize> Dims for aegir::buffers::shapes::S2<A, B> {
    fn dims(&self) -> Vec<usize> { vec![A, B] }
}
impl<const A: usize, const B: usize, const C: usize> Dims for aegir::buffers::shapes::S3<A, B, C> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize> Dims for aegir::buffers::shapes::S4<A, B, C, D> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D] }
}
impl<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize> Dims for aegir::buffers::shapes::S5<A, B, C, D, E> {
    fn dims(&self) -> Vec<usize> { vec![A, B, C, D, E] }
}
impl<const N: usize> Dims for SDynamic<N> {
    fn dims(&self) -> Vec<usize> { self.0.to_vec() }
}

impl Buf for F {
    fn to_tensor(&self) -> Tensor { Tensor::scalar(self.0) }
    fn from_tensor(t: &Tensor) -> F { SimF(t.data[0]) }
    fn shape_of(_: &[usize]) -> S0 { S0 }
    fn dims_of(s: &S0) -> Vec<usize> { s.dims() }
    fn fixed_dims() -> Option<Vec<usize>> { Some(vec![]) }
}

impl<const N: usize> Buf for [F; N] {
    fn to_tensor(&self) -> Tensor { Tensor { dims: vec![N], data: self.iter().map(|x| x.0).collect() } }
    fn from_tensor(t: &Tensor) -> Self { std::array::from_fn(|i| SimF(t.data[i])) }
    fn shape_of(_: &[usize]) -> ShapeOf<Self> { aegir::buffers::shapes::S1 }
    fn dims_of(s: &ShapeOf<Self>) -> Vec<usize> { s.dims() }
    fn fixed_dims() -> Option<Vec<usize>> { Some(vec![N]) }
}

impl<const N: usize, const M: usize> Buf for [[F; M]; N] {
    fn to_tensor(&self) -> Tensor { Tensor { dims: vec![N, M], data: self.iter().flatten().map(|x| x.0).collect() } }
    fn from_tensor(t: &Tensor) -> Self { std::array::from_fn(|i| std::array::from_fn(|j| SimF(t.data[i * M + j]))) }
    fn shape_of(_: &[usize]) -> ShapeOf<Self> { aegir::buffers::shapes::S2 }
    fn dims_of(s: &ShapeOf<Self>) -> Vec<usize> { s.dims() }
    fn fixed_dims() -> Option<Vec<usize>> { Some(vec![N, M]) }
}

impl<const N: usize, const M: usize, const K: usize> Buf for [[[F; K]; M]; N] {
    fn to_tensor(&self) -> Tensor { Tensor { dims: vec![N, M, K], data: self.iter().flatten().flatten().map(|x| x.0).collect() } }
    fn from_tensor(t: &Tensor) -> Self {
        std::array::from_fn(|i| std::array::from_fn(|j| std::array::from_fn(|k| SimF(t.data[(i * M + j) * K + k]))))
    }
    fn shape_of(_: &[usize]) -> ShapeOf<Self> { aegir::buffers::shapes::S3 }
    fn dims_of(s: &ShapeOf<Self>) -> Vec<usize> { s.dims() }
    fn fixed_dims() -> Option<Vec<usize>> { Some(vec![N, M, K]) }
}

impl Buf for Vec<F> {
    fn to_tensor(&self) -> Tensor { Tensor { dims: vec![self.len()], data: self.iter().map(|x| x.0).collect() } }
    fn from_tensor(t: &Tensor) -> Self { t.data.iter().map(|x| SimF(*x)).collect() }
    fn shape_of(d: &[usize]) -> SDynamic<1> { SDynamic([d[0]]) }
    fn dims_of(s: &SDynamic<1>) -> Vec<usize> { s.dims() }
    fn fixed_dims() -> Option<Vec<usize>> { None }
}

impl Buf for (F, F) {
    fn to_tensor(&self) -> Tensor { Tensor { dims: vec![2], data: vec![self.0 .0, self.1 .0] } }
    fn from_tensor(t: &Tensor) -> Self { (SimF(t.data[0]), SimF(t.data[1])) }
    fn shape_of(_: &[usize]) -> ShapeOf<Self> { aegir::buffers::shapes::S1 }
    fn dims_of(s: &ShapeOf<Self>) -> Vec<usize> { s.dims() }
    fn fixed_dims() -> Option<Vec<usize>> { Some(vec![2]) }
}

macro_rules! kdyn {
    ($n:literal) => {
        impl Buf for Dyn<F, $n> {
            fn to_tensor(&self) -> Tensor { Tensor { dims: self.dims.to_vec(), data: self.data.iter().map(|x| x.0).collect() } }
            fn from_tensor(t: &Tensor) -> Self {
                Dyn { dims: std::array::from_fn(|i| t.dims[i]), data: t.data.iter().map(|x| SimF(*x)).collect() }
            }
            fn shape_of(d: &[usize]) -> SDynamic<$n> { SDynamic(std::array::from_fn(|i| d[i])) }
            fn dims_of(s: &SDynamic<$n>) -> Vec<usize> { s.dims() }
            fn fixed_dims() -> Option<Vec<usize>> { None }
        }
    };
}
kdyn!(1);
kdyn!(2);

pub type R3 = [[[F; 2]; 3]; 2];

macro_rules! kinds {
    ($($k:ident $id:ident $t:ty;)*) => {$(
        impl KBuf for $t {
            const KIND: Kind = Kind::$k;
            type Id = $id;
        }
    )*};
}
kinds! {
    S IdS F;
    A2 IdA2 [F; 2];
    A3 IdA3 [F; 3];
    M22 IdM22 [[F; 2]; 2];
    M23 IdM23 [[F; 3]; 2];
    M32 IdM32 [[F; 2]; 3];
    M33 IdM33 [[F; 3]; 3];
    R3 IdR3 R3;
    V IdV Vec<F>;
    T IdT (F, F);
    D IdD Dyn<F, 1>;
    G IdG Dyn<F, 2>;
}

// --------------------------------------------------------------------------------------------
// The store
// --------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Dense,
    Spec,
    Shape,
}

#[derive(Clone, Debug)]
pub enum Access {
    Read { id: Any, how: How, got: Option<Tensor> },
    Write { id: Any, val: Tensor, lost: bool },
}

/// What may go wrong at the accesses of one client.
#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg {
    /// Chance (of 64) that the client is preempted at an access.
    pub preempt: u32,
    /// Chance (of 64) that an available variable is hidden from one read.
    pub hide: u32,
    /// Hand out values in a random structural representation.
    pub repr: bool,
    /// Chance (of 64) that a memo write is lost.
    pub lose: u32,
    /// Crash at this access (1-based, counted from the start of the call).
    pub crash_at: u32,
    /// Give up after this many accesses in one call.
    pub limit: u32,
}

#[derive(Default)]
pub struct Client {
    pub cfg: Cfg,
    pub accesses: u32,
    pub log: Vec<Access>,
}

#[derive(Default)]
pub struct Store {
    pub vals: BTreeMap<Any, Tensor>,
    /// Every state each identifier was in, with the time it began.
    pub hist: BTreeMap<Any, Vec<(u64, Option<Tensor>)>>,
    pub clock: u64,
    pub clients: Vec<Client>,
    /// Variables that some other client changes over and over, between any two reads.
    pub restless: Vec<Any>,
}

impl Store {
    /// The next value (and size) of a restless variable: never one it had a few reads ago.
    fn stir(&mut self, id: Any) {
        let Some(mut t) = self.vals.get(&id).cloned() else { return };
        if id.kind.dynamic() {
            for d in t.dims.iter_mut() {
                *d = (*d + 1) % 7;
            }
        }
        let (lo, hi) = crate::build::range_of(id);
        let (n, c) = (t.dims.iter().product(), self.clock as usize);
        t.data = (0..n).map(|k| lo + (hi - lo) * (((k * 3 + c * 5) % 23) as f64 + 0.5) / 23.0).collect();
        self.set(id, Some(t));
    }

    pub fn set(&mut self, id: Any, v: Option<Tensor>) {
        self.clock += 1;
        let t = self.clock;
        self.hist.entry(id).or_default().push((t, v.clone()));
        match v {
            Some(v) => {
                self.vals.insert(id, v);
            },
            None => {
                self.vals.remove(&id);
            },
        }
    }

    /// The states `id` was in during [t0, t1].
    pub fn during(&self, id: Any, t0: u64, t1: u64) -> Vec<Option<Tensor>> {
        let h = match self.hist.get(&id) {
            Some(h) => h,
            None => return vec![None],
        };
        let mut out = vec![];
        let mut before = None;
        for (t, v) in h {
            if *t <= t0 {
                before = v.clone();
            } else if *t <= t1 {
                out.push(v.clone());
            }
        }
        out.insert(0, before);
        out
    }
}

#[derive(Clone)]
pub struct Db(pub Rc<RefCell<Store>>);

impl Db {
    pub fn new(clients: usize) -> Db {
        harness(|| {
            let mut s = Store::default();
            s.clients.resize_with(clients, Client::default);
            Db(Rc::new(RefCell::new(s)))
        })
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Store) -> R) -> R { harness(|| f(&mut self.0.borrow_mut())) }
    pub fn set(&self, id: Any, v: Tensor) { self.with(|s| s.set(id, Some(v))) }
    pub fn unset(&self, id: Any) { self.with(|s| s.set(id, None)) }
    pub fn get(&self, id: Any) -> Option<Tensor> { self.with(|s| s.vals.get(&id).cloned()) }
    pub fn clock(&self) -> u64 { self.with(|s| s.clock) }
    pub fn ctx(&self, client: usize) -> SimCtx { SimCtx { db: self.clone(), client, off: Cell::new(false) } }
}

/// A client's handle on the store: the `Context` the library sees.
pub struct SimCtx {
    pub db: Db,
    pub client: usize,
    pub off: Cell<bool>,
}

impl AsMut<SimCtx> for SimCtx {
    fn as_mut(&mut self) -> &mut SimCtx { self }
}
impl Context for SimCtx {}

impl SimCtx {
    /// Count an access; crash or switch here if the schedule says so.
    fn point(&self, what: &str, id: Any) {
        let (n, cfg) = self.db.with(|s| {
            s.clock += 1;
            let c = &mut s.clients[self.client];
            c.accesses += 1;
            (c.accesses, c.cfg)
        });
        if cfg.limit > 0 && n > cfg.limit {
            if !sim::failed() {
                harness(|| sim::fail(format!("[steps] one call made more than {} context accesses", cfg.limit)));
            }
            sim::crash();
        }
        if cfg.crash_at == n {
            sim::count("crash.access");
            sim::ev(10, n as u64, id.n as u64, || format!("crash injected at {} of {:?} (access {})", what, id, n));
            sim::crash();
        }
        if cfg.preempt > 0 && sim::in_task() && sim::chance(cfg.preempt, 64) {
            sim::count("preempt.access");
            sim::ev(11, n as u64, id.n as u64, || format!("preempted before {} of {:?}", what, id));
            sim::yield_now();
        }
    }

    fn after(&self) {
        let cfg = self.db.with(|s| s.clients[self.client].cfg);
        if cfg.preempt > 0 && sim::in_task() && sim::chance(cfg.preempt, 64) {
            sim::count("preempt.access");
            sim::ev(12, 0, 0, || "preempted after the access".into());
            sim::yield_now();
        }
    }

    fn fetch(&self, id: Any, how: How) -> Option<Tensor> {
        self.point("read", id);
        let mut v = self.db.with(|s| {
            if s.restless.contains(&id) {
                s.stir(id);
            }
            s.vals.get(&id).cloned()
        });
        let hide = self.db.with(|s| s.clients[self.client].cfg.hide);
        if hide > 0 && v.is_some() && sim::chance(hide, 64) {
            sim::count("missing.transient");
            v = None;
        }
        let h = v.as_ref().map(|t| t.hash()).unwrap_or(0);
        sim::ev(13, id.n as u64 | (id.kind as u64) << 8 | (how as u64) << 16, h, || format!("read {:?} {:?} -> {:?}", how, id, v));
        self.db.with(|s| s.clients[self.client].log.push(Access::Read { id, how, got: v.clone() }));
        v
    }

    fn get<B: KBuf>(&self, id: Any) -> Option<B> {
        let v = self.fetch(id, How::Dense);
        let b = v.as_ref().map(B::from_tensor);
        harness(|| drop(v));
        self.after();
        b
    }

    fn get_spec<B: KBuf>(&self, id: Any) -> Option<Spec<B>> {
        let v = self.fetch(id, How::Spec);
        let repr = self.db.with(|s| s.clients[self.client].cfg.repr);
        let b = v.as_ref().map(|t| if repr { represent(t, true) } else { Spec::Raw(B::from_tensor(t)) });
        harness(|| drop(v));
        self.after();
        b
    }

    fn get_shape<B: KBuf>(&self, id: Any) -> Option<ShapeOf<B>> {
        let v = self.fetch(id, How::Shape);
        let b = v.as_ref().map(|t| B::shape_of(&t.dims));
        harness(|| drop(v));
        self.after();
        b
    }

    fn put<B: KBuf>(&self, id: Any, val: B) {
        let t = harness(|| val.to_tensor());
        drop(val);
        self.point("write", id);
        let lose = self.db.with(|s| s.clients[self.client].cfg.lose);
        let lost = lose > 0 && sim::chance(lose, 64);
        if lost {
            sim::count("lost.write");
        }
        sim::ev(14, id.n as u64 | (id.kind as u64) << 8, t.hash(), || format!("write {:?} <- {:?}{}", id, t, if lost { " (lost)" } else { "" }));
        self.db.with(|s| {
            if !lost {
                s.set(id, Some(t.clone()));
            }
            s.clients[self.client].log.push(Access::Write { id, val: t.clone(), lost });
        });
        harness(|| drop(t));
        self.after();
    }
}

/// A structural representation of `t`, chosen by the simulator.
pub fn represent<B: Buf>(t: &Tensor, counted: bool) -> Spec<B> {
    let full = t.as_full();
    let diag = t.as_diagonal();
    let pick = if full.is_some() || diag.is_some() { sim::below(3) } else { 0 };
    match (pick, full, diag) {
        (1, Some(x), _) | (2, Some(x), None) => {
            if counted {
                sim::count("repr.full");
            }
            Spec::Full(B::shape_of(&t.dims), SimF(x))
        },
        (2, _, Some(x)) | (1, None, Some(x)) => {
            if counted {
                sim::count("repr.diagonal");
            }
            Spec::Diagonal(B::shape_of(&t.dims), SimF(x))
        },
        _ => Spec::from(B::from_tensor(t)),
    }
}

macro_rules! access {
    ($($id:ident => $b:ty),*) => {$(
        impl Read<$id> for SimCtx {
            type Buffer = $b;
            fn read(&self, id: $id) -> Option<$b> { self.get(id.any()) }
            fn read_spec(&self, id: $id) -> Option<Spec<$b>> { self.get_spec(id.any()) }
            fn read_shape(&self, id: $id) -> Option<ShapeOf<$b>> { self.get_shape::<$b>(id.any()) }
        }
        impl Write<$id> for SimCtx {
            fn write(&mut self, id: $id, val: $b) { self.put(id.any(), val) }
        }
    )*};
}
access!(
    IdS => F, IdA2 => [F; 2], IdA3 => [F; 3], IdV => Vec<F>, IdT => (F, F), IdM22 => [[F; 2]; 2], IdM23 => [[F; 3]; 2],
    IdM32 => [[F; 2]; 3], IdM33 => [[F; 3]; 3], IdR3 => R3, IdG => Grid<F>, IdD => Dyn<F, 1>
);
