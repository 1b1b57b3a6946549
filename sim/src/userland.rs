//! Operators and identifiers the way a user declares them: `ids!`, `#[derive(Contains)]` on operators
//! of one to five operands with named and unnamed fields, over a hand-written context.
use crate::sim::{below, chance, count, ev, fail, fingerprint, hash_str, mix, nontrivial, range, sample};
use aegir::{ids, meta::Variable, Contains, Context, Function, Identifier, Node, Read};
use std::rc::Rc;

ids!(Pq::"same", Qp::"same", Rr, Rrr::"Rr", Ss::s);
pub const N: usize = 5;

#[derive(Clone, Default)]
pub struct Shelf(pub [Option<f64>; N]);
impl AsMut<Shelf> for Shelf {
    fn as_mut(&mut self) -> &mut Shelf { self }
}
impl Context for Shelf {}

#[derive(Debug, Clone, PartialEq)]
pub struct Gone(pub String);
impl std::fmt::Display for Gone {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Gone {}

/// A subtree of any kind.
pub trait Sub {
    fn has(&self, i: usize) -> bool;
    fn eval(&self, s: &mut Shelf) -> Result<f64, Gone>;
}
#[derive(Clone)]
pub struct Any(Rc<dyn Sub>);
impl Node for Any {}

macro_rules! each_id {
    ($($i:literal $I:ident),*) => {
        $(
            impl Read<$I> for Shelf {
                type Buffer = f64;
                fn read(&self, _: $I) -> Option<f64> { self.0[$i] }
            }
            impl Contains<$I> for Any {
                fn contains(&self, _: $I) -> bool { self.0.has($i) }
            }
        )*
        fn leaf(i: usize) -> Any {
            match i {
                $($i => Any(Rc::new(Of(Variable($I)))),)*
                _ => unreachable!(),
            }
        }
        pub fn asks<T: $(Contains<$I> +)* Node>(t: &T, i: usize) -> bool {
            match i {
                $($i => t.contains($I),)*
                _ => unreachable!(),
            }
        }
        /// Every identifier equals itself and no other.
        fn equal(i: usize, j: usize) -> bool {
            fn with<A: Identifier $(+ PartialEq<$I>)*>(a: A, j: usize) -> bool {
                match j {
                    $($i => a == $I,)*
                    _ => unreachable!(),
                }
            }
            match i {
                $($i => with($I, j),)*
                _ => unreachable!(),
            }
        }
    };
}
each_id!(0 Pq, 1 Qp, 2 Rr, 3 Rrr, 4 Ss);

impl Function<Shelf> for Any {
    type Error = Gone;
    type Value = f64;
    fn evaluate<CR: AsMut<Shelf>>(&self, mut c: CR) -> Result<f64, Gone> { self.0.eval(c.as_mut()) }
}

struct Of<T>(T);
impl<T> Sub for Of<T>
where
    T: Contains<Pq> + Contains<Qp> + Contains<Rr> + Contains<Rrr> + Contains<Ss> + Function<Shelf, Value = f64>,
{
    fn has(&self, i: usize) -> bool { asks(&self.0, i) }
    fn eval(&self, s: &mut Shelf) -> Result<f64, Gone> { self.0.evaluate(s).map_err(|e| Gone(e.to_string())) }
}

macro_rules! user_op {
    ($(#[$m:meta])* $Op:ident<$($T:ident $f:tt),*>) => {
        impl<$($T: Node),*> Node for $Op<$($T),*> {}
        impl<$($T: Function<Shelf, Value = f64>),*> Function<Shelf> for $Op<$($T),*> {
            type Error = Gone;
            type Value = f64;
            fn evaluate<CR: AsMut<Shelf>>(&self, mut c: CR) -> Result<f64, Gone> {
                let mut acc = 1.0;
                $(acc = acc * 1.5 + self.$f.evaluate(c.as_mut()).map_err(|e| Gone(e.to_string()))?;)*
                Ok(acc)
            }
        }
    };
}

#[derive(Clone, Contains)]
struct One<A> {
    #[op]
    inner: A,
}
user_op!(One<A inner>);
#[derive(Clone, Contains)]
struct Two<L, R> {
    #[op]
    right: R,
    #[op]
    left: L,
}
user_op!(Two<L left, R right>);
#[derive(Clone, Contains)]
struct Three<A, B, C>(#[op] A, #[op] B, #[op] C);
user_op!(Three<A 0, B 1, C 2>);
#[derive(Clone, Contains)]
struct Four<A, B, C, D> {
    #[op]
    a: A,
    #[op]
    b: B,
    #[op]
    c: C,
    #[op]
    d: D,
}
user_op!(Four<A a, B b, C c, D d>);
#[derive(Clone, Contains)]
struct Five<A, B, C, D, E>(#[op] A, #[op] B, #[op] C, #[op] D, #[op] E);
user_op!(Five<A 0, B 1, C 2, D 3, E 4>);

fn any<T>(t: T) -> Any
where
    T: Contains<Pq> + Contains<Qp> + Contains<Rr> + Contains<Rrr> + Contains<Ss> + Function<Shelf, Value = f64> + 'static,
{
    Any(Rc::new(Of(t)))
}

/// A tree and which identifiers occur in it.
fn tree(depth: u32, text: &mut String) -> (Any, [bool; N]) {
    let mut occ = [false; N];
    if depth == 0 || chance(1, 4) {
        if chance(1, 5) {
            text.push('c');
            return (any(aegir::meta::Constant(2.5f64)), occ);
        }
        let i = below(N as u32) as usize;
        text.push_str(&i.to_string());
        occ[i] = true;
        return (leaf(i), occ);
    }
    let op = below(7);
    text.push_str(["one(", "two(", "three(", "four(", "five(", "add(", "mul("][op as usize]);
    let mut next = || {
        let (a, o) = tree(depth - 1, text);
        text.push(' ');
        for i in 0..N {
            occ[i] |= o[i];
        }
        a
    };
    let t = match op {
        0 => any(One { inner: next() }),
        1 => any(Two { left: next(), right: next() }),
        2 => any(Three(next(), next(), next())),
        3 => any(Four { a: next(), b: next(), c: next(), d: next() }),
        4 => any(Five(next(), next(), next(), next(), next())),
        5 => any(aegir::ops::Add(next(), next())),
        _ => any(aegir::ops::Mul(next(), next())),
    };
    text.push(')');
    (t, occ)
}

pub fn contains() {
    count("op.userland");
    for _ in 0..2 {
        let (i, j) = (below(N as u32) as usize, below(N as u32) as usize);
        if equal(i, j) != (i == j) {
            return fail(format!("[identifiers] identifiers {} and {} of one declaration compare {}", i, j, equal(i, j)));
        }
    }
    let mut text = String::new();
    let (t, _) = tree(range(1, 3) as u32, &mut text);
    fingerprint(hash_str(&text));
    sample(|| text.clone());
    let mut shelf = Shelf::default();
    for i in 0..N {
        shelf.0[i] = Some(1.0 + range(0, 6) as f64 / 4.0);
    }
    for _ in 0..range(1, 4) {
        let i = below(N as u32) as usize;
        let says = asks(&t, i);
        ev(80, i as u64, says as u64, || format!("{} says contains({}) = {}", text, i, says));
        fingerprint(mix(i as u64, says as u64));
        let before = t.evaluate(&mut shelf);
        let old = shelf.0[i];
        nontrivial();
        if says || chance(1, 2) {
            count("missing.outage");
            shelf.0[i] = None;
        } else {
            count("update.value");
            shelf.0[i] = old.map(|x| x * 3.0 + 1.0);
        }
        ev(33, i as u64, 0, || format!("identifier {} becomes {:?}", i, shelf.0[i]));
        let after = t.evaluate(&mut shelf);
        if says && after.is_ok() {
            return fail(format!("[contains] {} says it contains {}, yet without it the result is {:?}", text, i, after));
        }
        if !says && after != before {
            return fail(format!("[independent] {} says it does not contain {}, yet after changing it the result is {:?} instead of {:?}", text, i, after, before));
        }
        shelf.0[i] = old;
    }
}
