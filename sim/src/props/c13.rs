//! C13: index cursors enumerate every position once, in order, however they are driven.
use crate::{
    orch::Prop,
    sim::{self, *},
};
use aegir::buffers::shapes::*;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        run,
        rule: "One run drives up to 5 cursors over one or more shapes (fixed and run-time, rank 0-6, axes 0-4, some huge) by an \
               interleaved schedule of next/nth/take/peek/count/size_hint/collect/last/copy/abandon operations, with callbacks that \
               crash midway; each answer is compared with a row-major reference list. Non-trivial: at least one cursor was \
               copied, interrupted, abandoned midway or interleaved with another; distinct: by shapes and operation sequence.",
        real: "aegir::buffers::shapes (all Shape impls, their cursors)",
        stub: "none; clients and callbacks are simulated",
        quick: 3_000_000,
        thorough: 80_000_000,
        batch: 2000,
    }
}

pub trait IxVec {
    fn v(&self) -> Vec<usize>;
    fn from_v(v: &[usize]) -> Self;
}
impl IxVec for () {
    fn v(&self) -> Vec<usize> { vec![] }
    fn from_v(_: &[usize]) -> Self {}
}
impl IxVec for usize {
    fn v(&self) -> Vec<usize> { vec![*self] }
    fn from_v(v: &[usize]) -> Self { v[0] }
}
impl<const N: usize> IxVec for [usize; N] {
    fn v(&self) -> Vec<usize> { self.to_vec() }
    fn from_v(v: &[usize]) -> Self { v.try_into().unwrap() }
}

/// A cursor of any shape, behind one interface.
trait Cur {
    fn next(&mut self) -> Option<Vec<usize>>;
    fn nth(&mut self, n: usize) -> Option<Vec<usize>>;
    fn hint(&self) -> (usize, Option<usize>);
    fn copy(&self) -> Option<Box<dyn Cur>>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Vec<usize>>;
    fn rest(self: Box<Self>) -> Vec<Vec<usize>>;
    fn extreme(self: Box<Self>, max: bool) -> Option<Vec<usize>>;
    fn find(&mut self, f: &mut dyn FnMut(Vec<usize>) -> bool) -> Option<Vec<usize>>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(Vec<usize>));
    fn each(&mut self, f: &mut dyn FnMut(Vec<usize>) -> bool);
}

struct Plain<I>(I);
struct Copyable<I>(I);

macro_rules! impl_cur {
    ($name:ident, $($bound:tt)*) => {
        impl<I: Iterator + $($bound)* 'static> Cur for $name<I>
        where
            I::Item: IxVec + Ord,
        {
            fn next(&mut self) -> Option<Vec<usize>> { self.0.next().map(|x| x.v()) }
            fn nth(&mut self, n: usize) -> Option<Vec<usize>> { self.0.nth(n).map(|x| x.v()) }
            fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
            fn copy(&self) -> Option<Box<dyn Cur>> { impl_cur!(@copy $name, self) }
            fn count(self: Box<Self>) -> usize { self.0.count() }
            fn last(self: Box<Self>) -> Option<Vec<usize>> { self.0.last().map(|x| x.v()) }
            fn rest(self: Box<Self>) -> Vec<Vec<usize>> { self.0.map(|x| x.v()).collect() }
            fn extreme(self: Box<Self>, max: bool) -> Option<Vec<usize>> { if max { self.0.max().map(|x| x.v()) } else { self.0.min().map(|x| x.v()) } }
            fn find(&mut self, f: &mut dyn FnMut(Vec<usize>) -> bool) -> Option<Vec<usize>> { self.0.find(|x| f(x.v())).map(|x| x.v()) }
            fn fold(self: Box<Self>, f: &mut dyn FnMut(Vec<usize>)) { self.0.fold((), |_, x| f(x.v())) }
            fn each(&mut self, f: &mut dyn FnMut(Vec<usize>) -> bool) {
                for x in self.0.by_ref() {
                    if f(x.v()) {
                        break;
                    }
                }
            }
        }
    };
    (@copy Plain, $s:ident) => { { let _ = $s; None } };
    (@copy Copyable, $s:ident) => { Some(Box::new(Copyable($s.0.clone()))) };
}
impl_cur!(Plain,);
impl_cur!(Copyable, Clone +);

/// A shape of any kind, behind one interface.
pub struct AnyShape {
    pub name: String,
    pub dims: Vec<usize>,
    card: Box<dyn Fn() -> usize>,
    contains: Box<dyn Fn(&[usize]) -> bool>,
    make: Box<dyn Fn() -> Box<dyn Cur>>,
    rank: usize,
}

fn wrap<S: Shape + 'static>(s: S, dims: Vec<usize>, make: Box<dyn Fn() -> Box<dyn Cur>>) -> AnyShape
where
    S::Index: IxVec,
{
    AnyShape {
        name: format!("{:?}", s),
        dims,
        card: Box::new(move || s.cardinality()),
        contains: Box::new(move |v| s.contains(IxVec::from_v(v))),
        make,
        rank: S::DIM,
    }
}

fn plain<S: Shape + 'static>(s: S, dims: &[usize]) -> AnyShape
where
    S::Index: IxVec + Ord + 'static,
    S::IndexIter: 'static,
{
    wrap(s, dims.to_vec(), Box::new(move || Box::new(Plain(s.indices()))))
}

fn copyable<S: Shape + 'static>(s: S, dims: &[usize]) -> AnyShape
where
    S::Index: IxVec + Ord + 'static,
    S::IndexIter: Clone + 'static,
{
    wrap(s, dims.to_vec(), Box::new(move || Box::new(Copyable(s.indices()))))
}

pub fn fixed(k: u32) -> AnyShape {
    macro_rules! table {
        ($k:expr; $($f:ident $t:ident [$($d:literal),*]),+ $(,)?) => {{
            let mut _n = 0;
            $(if $k == _n { return $f($t::<$($d),*>, &[$($d),*]); } _n += 1;)+
            _n
        }};
    }
    if k == 0 {
        return copyable(S0, &[]);
    }
    let _ = table!(k - 1;
        copyable S1[0], copyable S1[1], copyable S1[2], copyable S1[5],
        plain S2[0, 0], plain S2[0, 3], plain S2[3, 0], plain S2[1, 1], plain S2[2, 3], plain S2[3, 2], plain S2[4, 1],
        plain S3[1, 1, 1], plain S3[2, 0, 2], plain S3[2, 3, 4], plain S3[3, 1, 2], plain S3[1, 2, 0],
        plain S4[1, 2, 2, 3], plain S4[2, 1, 0, 2], plain S4[3, 2, 1, 2],
        plain S5[2, 1, 2, 1, 3], plain S5[1, 2, 3, 2, 1], plain S5[0, 1, 1, 1, 1],
        plain S6[1, 2, 1, 2, 2, 1], plain S6[2, 1, 2, 1, 1, 3], plain S6[1, 1, 1, 1, 1, 0],
    );
    unreachable!("harness: fixed shape {}", k)
}
pub const FIXED: u32 = 26;

pub fn dynamic(dims: &[usize]) -> AnyShape {
    fn go<const N: usize>(d: &[usize]) -> AnyShape {
        let a: [usize; N] = d.try_into().unwrap();
        copyable(SDynamic::<N>(a), d)
    }
    match dims.len() {
        0 => go::<0>(dims),
        1 => go::<1>(dims),
        2 => go::<2>(dims),
        3 => go::<3>(dims),
        4 => go::<4>(dims),
        5 => go::<5>(dims),
        _ => go::<6>(dims),
    }
}

fn positions(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for d in dims {
        out = out.into_iter().flat_map(|p| (0..*d).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
    }
    out
}

struct Client {
    cur: Option<Box<dyn Cur>>,
    shape: usize,
    pos: usize,
    id: usize,
}

fn run() {
    let nshapes = range(1, 2) as usize;
    let mut shapes = vec![];
    for _ in 0..nshapes {
        let s = if chance(1, 2) {
            let rank = range(0, 6) as usize;
            let mut dims = vec![];
            let mut card = 1;
            if chance(1, 200) {
                // a few hundred positions, or a few thousand
                count("op.big");
                for _ in 0..range(1, 4) {
                    let d = range(1, [1500, 40, 11, 7][dims.len()]) as usize;
                    if card * d < 2500 {
                        card *= d;
                        dims.push(d);
                    }
                }
                shapes.push(dynamic(&dims));
                continue;
            }
            for _ in 0..rank {
                let d = range(0, if card > 30 { 1 } else { 4 }) as usize;
                card *= d.max(1);
                dims.push(d);
            }
            dynamic(&dims)
        } else {
            fixed(below(FIXED))
        };
        fingerprint(hash_str(&s.name));
        shapes.push(s);
    }
    if chance(1, 12) {
        huge();
    }
    let refs: Vec<Vec<Vec<usize>>> = shapes.iter().map(|s| positions(&s.dims)).collect();
    for (s, r) in shapes.iter().zip(&refs) {
        check_shape(s, r);
        if failed() {
            return;
        }
    }
    let mut clients: Vec<Client> = vec![];
    let mut ids = 0;
    let nops = range(1, 40);
    let mut interesting = false;
    let mut last = usize::MAX;
    let mut ops = String::new();
    for _ in 0..nops {
        if failed() {
            return;
        }
        if clients.is_empty() || (clients.len() < 5 && chance(1, 8)) {
            let shape = below(nshapes as u32) as usize;
            match call(|| (shapes[shape].make)()) {
                Called::Done(c) => {
                    note(|| format!("cursor {} opened on {}", ids, shapes[shape].name));
                    clients.push(Client { cur: Some(c), shape, pos: 0, id: ids });
                    ids += 1;
                },
                o => return unexpected("indices()", &shapes[shape], o.map(|_| ())),
            }
        }
        let k = below(clients.len() as u32) as usize;
        if last != usize::MAX && last != k {
            interesting = true;
        }
        last = k;
        let op = below(11);
        fingerprint((k as u64) << 8 | op as u64);
        let drop_it;
        {
            let c = &mut clients[k];
            let sh = &shapes[c.shape];
            let rf = &refs[c.shape];
            let left = rf.len() - c.pos;
            let cur = c.cur.as_mut().unwrap();
            sample(|| format!("shapes {:?}", shapes.iter().map(|s| &s.name).collect::<Vec<_>>()));
            let mut ended = false;
            match op {
                0..=2 => {
                    count("op.next");
                    match call(|| cur.next()) {
                        Called::Done(got) => {
                            ev(20, c.id as u64, 0, || format!("cursor {} next -> {:?}", c.id, got));
                            ended = expect(sh, rf, &mut c.pos, got, "next");
                        },
                        o => return unexpected("next", sh, o.map(|_| ())),
                    }
                },
                3 => {
                    count("op.nth");
                    let n = if chance(1, 4) { range(0, left as i64 + 2) as usize } else { range(0, 3) as usize };
                    match call(|| cur.nth(n)) {
                        Called::Done(got) => {
                            ev(21, c.id as u64, n as u64, || format!("cursor {} nth({}) -> {:?}", c.id, n, got));
                            c.pos = (c.pos + n).min(rf.len());
                            ended = expect(sh, rf, &mut c.pos, got, "nth");
                        },
                        o => return unexpected("nth", sh, o.map(|_| ())),
                    }
                },
                4 => {
                    count("op.size_hint");
                    match call(|| cur.hint()) {
                        Called::Done((lo, hi)) => {
                            ev(22, lo as u64, hi.unwrap_or(0) as u64, || format!("cursor {} size_hint -> {:?}", c.id, (lo, hi)));
                            if lo > left || hi.is_some_and(|h| h < left) {
                                return fail(format!("[hint] {}: size_hint {:?} with {} of {} positions left", sh.name, (lo, hi), left, rf.len()));
                            }
                        },
                        o => return unexpected("size_hint", sh, o.map(|_| ())),
                    }
                },
                5 => {
                    // copy the cursor: both go on independently
                    match call(|| cur.copy()) {
                        Called::Done(Some(n)) => {
                            count("copy.cursor");
                            interesting = true;
                            note(|| format!("cursor {} copied to {}", c.id, ids));
                            let (shape, pos) = (c.shape, c.pos);
                            clients.push(Client { cur: Some(n), shape, pos, id: ids });
                            ids += 1;
                        },
                        Called::Done(None) => {},
                        o => return unexpected("clone", sh, o.map(|_| ())),
                    }
                },
                6 => {
                    count("op.count");
                    let b = c.cur.take().unwrap();
                    match call(|| b.count()) {
                        Called::Done(n) => {
                            ev(23, c.id as u64, n as u64, || format!("cursor {} count -> {}", c.id, n));
                            if n != left {
                                return fail(format!("[count] {}: count {} with {} of {} positions left", sh.name, n, left, rf.len()));
                            }
                        },
                        o => return unexpected("count", sh, o.map(|_| ())),
                    }
                },
                7 => {
                    count("op.rest");
                    let how = below(5);
                    let b = c.cur.take().unwrap();
                    let r = match how {
                        0 => call(|| b.rest()),
                        1 => call(|| {
                            let mut v = vec![];
                            b.fold(&mut |x| v.push(x));
                            v
                        }),
                        2 => call(|| b.last().into_iter().collect()),
                        _ => call(|| b.extreme(how == 3).into_iter().collect()),
                    };
                    match r {
                        Called::Done(v) => {
                            ev(24, c.id as u64, v.len() as u64, || format!("cursor {} drained: {:?}", c.id, v));
                            let want: Vec<Vec<usize>> = if how == 4 { rf[c.pos..].first().cloned().into_iter().collect() } else if how > 1 { rf[c.pos..].last().cloned().into_iter().collect() } else { rf[c.pos..].to_vec() };
                            if v != want {
                                return fail(format!("[rest] {}: draining from position {} gave {:?}, expected {:?}", sh.name, c.pos, v, want));
                            }
                        },
                        o => return unexpected("drain", sh, o.map(|_| ())),
                    }
                },
                8 => {
                    // a consumer that gives up, or crashes, after some positions
                    let n = range(1, 6) as usize;
                    let crash_it = chance(1, 2);
                    interesting = true;
                    let mut got = vec![];
                    let search = chance(1, 3);
                    let r = {
                        let got = &mut got;
                        call(|| {
                            if search {
                                cur.find(&mut |x| {
                                    got.push(x);
                                    if got.len() == n && crash_it {
                                        crash();
                                    }
                                    got.len() == n
                                });
                                return;
                            }
                            cur.each(&mut |x| {
                                got.push(x);
                                if got.len() == n && crash_it {
                                    crash();
                                }
                                got.len() == n
                            })
                        })
                    };
                    count(if crash_it { "crash.callback" } else { "abandon.loop" });
                    ev(25, c.id as u64, n as u64, || format!("cursor {} looped, {} after {}: {:?}", c.id, if crash_it { "crash" } else { "break" }, n, got));
                    match r {
                        Called::Done(()) | Called::Crashed => {},
                        o => return unexpected("for loop", sh, o.map(|_| ())),
                    }
                    let m = n.min(left);
                    if got != rf[c.pos..c.pos + m] {
                        return fail(format!("[loop] {}: looping from position {} gave {:?}", sh.name, c.pos, got));
                    }
                    c.pos += m;
                    ended = n > left;
                },
                9 => {
                    count("abandon.cursor");
                    interesting = true;
                    note(|| format!("cursor {} abandoned", c.id));
                    c.cur = None;
                },
                _ => {
                    // membership of a random position
                    let ix: Vec<usize> = sh.dims.iter().map(|d| if chance(1, 16) { usize::MAX } else { range(0, *d as i64 + 1) as usize }).collect();
                    member(sh, rf, &ix);
                },
            }
            // an exhausted cursor stays exhausted; keep some of them around
            drop_it = clients[k].cur.is_none() || ended && chance(1, 2);
        }
        ops.push((b'a' + op as u8) as char);
        if drop_it {
            clients.remove(k);
            last = usize::MAX;
        }
    }
    if interesting {
        nontrivial();
    }
}

fn unexpected(what: &str, s: &AnyShape, o: Called<()>) { fail(format!("[panic] {}: {} ended with {:?}", s.name, what, o)) }

fn expect(s: &AnyShape, rf: &[Vec<usize>], pos: &mut usize, got: Option<Vec<usize>>, what: &str) -> bool {
    let want = rf.get(*pos).cloned();
    if got != want {
        fail(format!("[order] {}: {} gave {:?}, expected {:?} (position {} of {})", s.name, what, got, want, pos, rf.len()));
    }
    *pos = (*pos + 1).min(rf.len());
    want.is_none()
}

fn member(s: &AnyShape, rf: &[Vec<usize>], ix: &[usize]) {
    match call(|| (s.contains)(ix)) {
        Called::Done(b) => {
            if b != rf.iter().any(|r| r == ix) {
                fail(format!("[contains] {}: contains({:?}) = {}", s.name, ix, b));
            }
        },
        o => unexpected("contains", s, o.map(|_| ())),
    }
}

fn check_shape(s: &AnyShape, rf: &[Vec<usize>]) {
    match call(|| (s.card)()) {
        Called::Done(n) if n == rf.len() => {},
        Called::Done(n) => return fail(format!("[card] {}: cardinality {} but {} positions", s.name, n, rf.len())),
        o => return unexpected("cardinality", s, o.map(|_| ())),
    }
    if s.rank != s.dims.len() {
        return fail(format!("[rank] {}: rank {} but {} axes", s.name, s.rank, s.dims.len()));
    }
    let mut probe = s.dims.clone();
    member(s, rf, &probe);
    for i in 0..probe.len() {
        // one axis just outside, the others inside
        for j in 0..probe.len() {
            probe[j] = if i == j { s.dims[j] } else { s.dims[j].saturating_sub(1) };
        }
        member(s, rf, &probe);
    }
}

/// Shapes with more positions than `usize` can count: bounds must still bracket.
fn huge() {
    count("op.huge");
    let rank = range(1, 4) as usize;
    let mut dims = vec![];
    for _ in 0..rank {
        dims.push(pick(&[usize::MAX, usize::MAX / 2 + 1, 1 << 33, 3, 1, 0]));
    }
    let s = dynamic(&dims);
    let total = if dims.contains(&0) { Some(0) } else { dims.iter().fold(Some(1u128), |a, d| a.and_then(|a| a.checked_mul(*d as u128))) };
    let mut c = (s.make)();
    let n = range(0, 5) as u128;
    for k in 0..=n {
        match call(|| c.hint()) {
            Called::Done((lo, hi)) => {
                let bad = match total {
                    Some(t) => {
                        let left = t - k.min(t);
                        lo as u128 > left || hi.is_some_and(|h| (h as u128) < left)
                    },
                    None => hi.is_some(),
                };
                if bad {
                    return fail(format!("[hint] {}: size_hint {:?} after {} of {:?} positions", s.name, (lo, hi), k, total));
                }
            },
            o => return unexpected("size_hint", &s, o.map(|_| ())),
        }
        if total == Some(k) {
            break;
        }
        // the k-th position, from the last axis
        let mut want = vec![0usize; rank];
        let mut r = k;
        for i in (0..rank).rev() {
            let d = dims[i] as u128;
            if d > 0 {
                want[i] = (r % d) as usize;
                r /= d;
            }
        }
        match call(|| c.next()) {
            Called::Done(got) => {
                let want = if total == Some(0) { None } else { Some(want) };
                if got != want {
                    return fail(format!("[order] {}: next {} gave {:?}, expected {:?}", s.name, k, got, want));
                }
                if got.is_none() {
                    break;
                }
            },
            o => return unexpected("next", &s, o.map(|_| ())),
        }
    }
    nontrivial();
}

#[allow(dead_code)]
fn _unused() { sim::count("") }
