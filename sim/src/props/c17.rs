//! C17: joining, splitting and broadcasting shapes carries every position across.
use crate::{
    orch::Prop,
    props::c13::IxVec,
    sim::*,
};
use aegir::buffers::shapes::*;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        run,
        rule: "One run joins a pair of shapes (every fixed pair that can be joined, run-time pairs up to rank 6+6) and lets 1-3 \
               interleaved clients walk it with nested cursors: the right's cursor is opened anew, copied, skipped, drained in bulk \
               (with callbacks that crash midway), abandoned and reopened; every joined position is compared with a row-major \
               reference list and with the joined shape's own cursor. Registers holding run-time shapes are resized between \
               broadcasts. Non-trivial: a walk was interrupted, copied, interleaved or reopened, or a broadcast met other sizes; \
               distinct: by shapes and schedule.",
        real: "aegir::buffers::shapes (Shape, Concat, Split, Broadcast, Ix impls, cursors)",
        stub: "none; clients and callbacks are simulated",
        quick: 2_000_000,
        thorough: 60_000_000,
        batch: 2000,
    }
}

type V = Vec<usize>;

/// A cursor whose positions have been made plain.
trait Walk {
    fn step(&mut self) -> Option<V>;
    fn skip(&mut self, n: usize) -> Option<V>;
    fn copy(&self) -> Option<Box<dyn Walk>>;
    fn drain(self: Box<Self>, f: &mut dyn FnMut(V));
}
struct Once<I>(I);
struct Many<I>(I);
macro_rules! walk {
    ($n:ident, [$($b:tt)*], $s:ident => $copy:expr) => {
        impl<I: Iterator + $($b)* 'static> Walk for $n<I>
        where
            I::Item: IxVec,
        {
            fn step(&mut self) -> Option<V> { self.0.next().map(|x| x.v()) }
            fn skip(&mut self, n: usize) -> Option<V> { self.0.nth(n).map(|x| x.v()) }
            fn copy(&self) -> Option<Box<dyn Walk>> { let $s = self; $copy }
            fn drain(self: Box<Self>, f: &mut dyn FnMut(V)) { self.0.for_each(|x| f(x.v())) }
        }
    };
}
walk!(Once, [], s => { let _ = s; None });
walk!(Many, [Clone +], s => Some(Box::new(Many(s.0.clone()))));

/// Two shapes and what they make together.
struct Pair {
    name: String,
    l: V,
    r: V,
    /// dimensions of the joined shape where they are known at run time only
    dims: Box<dyn Fn() -> Option<V>>,
    facts: Box<dyn Fn() -> Facts>,
    open: Box<dyn Fn(Side) -> Box<dyn Walk>>,
    join: Box<dyn Fn(&[usize], &[usize]) -> V>,
    inside: Box<dyn Fn(&[usize]) -> bool>,
    diagonal: Box<dyn Fn(&[usize]) -> bool>,
    split: Option<Box<dyn Fn(&[usize]) -> (V, V)>>,
    resplit: Option<Box<dyn Fn() -> bool>>,
}
#[derive(Clone, Copy, PartialEq)]
enum Side {
    Left,
    Right,
    Both,
}
#[derive(Debug, PartialEq)]
struct Facts {
    rank: [usize; 3],
    card: [usize; 3],
    named: [bool; 3],
    same: bool,
}

fn pair<A, B, C>(a: A, b: B, l: &[usize], r: &[usize], dims: Option<fn(&C) -> V>) -> Pair
where
    A: Concat<B, Shape = C> + 'static,
    B: Shape + 'static,
    C: Shape + 'static,
    A::Index: IxVec + 'static,
    B::Index: IxVec + 'static,
    C::Index: IxVec + 'static,
    A::IndexIter: 'static,
    B::IndexIter: 'static,
    C::IndexIter: 'static,
{
    let c = move || a.concat(b);
    Pair {
        name: format!("{:?} with {:?}", a, b),
        l: l.to_vec(),
        r: r.to_vec(),
        dims: Box::new(move || dims.map(|f| f(&c()))),
        facts: Box::new(move || {
            let c = c();
            Facts {
                rank: [A::DIM, B::DIM, C::DIM],
                card: [a.cardinality(), b.cardinality(), c.cardinality()],
                named: [c.is_scalar(), c.is_vector(), c.is_matrix()],
                same: a.is_equivalent(&c),
            }
        }),
        open: Box::new(move |s| match s {
            Side::Left => Box::new(Once(a.indices())),
            Side::Right => Box::new(Once(b.indices())),
            Side::Both => Box::new(Once(c().indices())),
        }),
        join: Box::new(|x, y| A::concat_indices(IxVec::from_v(x), IxVec::from_v(y)).v()),
        inside: Box::new(move |x| c().contains(IxVec::from_v(x))),
        diagonal: Box::new(|x| <C::Index as IxVec>::from_v(x).is_diagonal()),
        split: None,
        resplit: None,
    }
}

fn with_split<A, B, C>(a: A, b: B, mut p: Pair) -> Pair
where
    A: Concat<B, Shape = C> + PartialEq + 'static,
    B: Shape + PartialEq + 'static,
    C: Split<Left = A, Right = B> + PartialEq + 'static,
    A::Index: IxVec,
    B::Index: IxVec,
    C::Index: IxVec,
{
    p.split = Some(Box::new(|x| {
        let (l, r) = C::split_index(IxVec::from_v(x));
        (l.v(), r.v())
    }));
    p.resplit = Some(Box::new(move || {
        let c = a.concat(b);
        let (l, r) = c.split();
        l == a && r == b && l.concat(r) == c
    }));
    p
}

/// Run-time shapes have cursors that can be copied.
fn copyable<const N: usize>(s: SDynamic<N>) -> Box<dyn Walk> { Box::new(Many(s.indices())) }

fn run_time(l: &[usize], r: &[usize]) -> Pair {
    macro_rules! table {
        ($($n:literal: $($m:literal $k:literal),*;)*) => {
            match (l.len(), r.len()) {
                $($(($n, $m) => {
                    let (a, b) = (SDynamic::<$n>(l.try_into().unwrap()), SDynamic::<$m>(r.try_into().unwrap()));
                    let mut p = pair(a, b, l, r, Some(|c: &SDynamic<$k>| c.0.to_vec()));
                    p.open = Box::new(move |s| match s {
                        Side::Left => copyable(a),
                        Side::Right => copyable(b),
                        Side::Both => copyable(a.concat(b)),
                    });
                    p
                },)*)*
                _ => unreachable!(),
            }
        };
    }
    table! {
        0: 0 0, 1 1, 2 2, 3 3, 4 4, 5 5, 6 6;
        1: 0 1, 1 2, 2 3, 3 4, 4 5, 5 6, 6 7;
        2: 0 2, 1 3, 2 4, 3 5, 4 6, 5 7, 6 8;
        3: 0 3, 1 4, 2 5, 3 6, 4 7, 5 8, 6 9;
        4: 0 4, 1 5, 2 6, 3 7, 4 8, 5 9, 6 10;
        5: 0 5, 1 6, 2 7, 3 8, 4 9, 5 10, 6 11;
        6: 0 6, 1 7, 2 8, 3 9, 4 10, 5 11, 6 12;
    }
}

fn compiled(k: u32) -> (Pair, u32) {
    macro_rules! table {
        ($($l:ident [$($a:literal)*] $r:ident [$($b:literal)*];)*) => {{
            let mut n = 0;
            let mut p = None;
            $(
                if n == k {
                    p = Some(pair(table!(@v $l $($a)*), table!(@v $r $($b)*), &[$($a),*], &[$($b),*], None));
                }
                n += 1;
            )*
            (p, n)
        }};
        (@v S0) => { S0 };
        (@v $s:ident $($d:literal)*) => { $s::<$($d),*> };
    }
    let (p, n) = table! {
        S0 [] S0 [];
        S0 [] S1 [3];
        S0 [] S1 [0];
        S0 [] S2 [2 3];
        S0 [] S3 [2 1 3];
        S0 [] S4 [2 1 3 2];
        S0 [] S5 [1 2 1 3 2];
        S1 [3] S0 [];
        S1 [2] S3 [3 1 2];
        S1 [3] S2 [2 4];
        S1 [0] S2 [2 2];
        S1 [2] S4 [1 3 2 2];
        S1 [3] S5 [2 1 1 2 2];
        S2 [2 3] S0 [];
        S2 [2 3] S1 [4];
        S2 [3 0] S1 [2];
        S2 [2 3] S3 [3 1 2];
        S2 [1 3] S4 [2 1 2 2];
        S3 [2 3 4] S0 [];
        S3 [2 3 1] S1 [3];
        S3 [1 2 3] S2 [3 2];
        S3 [2 1 3] S3 [1 3 2];
        S4 [2 3 1 2] S0 [];
        S4 [2 1 3 2] S1 [2];
        S4 [2 1 3 1] S2 [3 2];
        S5 [2 1 3 1 2] S0 [];
        S5 [2 1 3 1 2] S1 [3];
    };
    macro_rules! splits {
        ($($l:ident [$($a:literal)*] $r:ident [$($b:literal)*];)*) => {{
            let mut m = n;
            $(
                if m == k {
                    let (a, b) = ($l::<$($a),*>, $r::<$($b),*>);
                    return (with_split(a, b, pair(a, b, &[$($a),*], &[$($b),*], None)), 0);
                }
                m += 1;
            )*
            m
        }};
    }
    let total = splits! {
        S1 [2] S1 [3];
        S1 [3] S1 [3];
        S1 [4] S1 [1];
        S1 [0] S1 [2];
        S1 [2] S1 [0];
        S2 [2 3] S2 [3 2];
        S2 [2 2] S2 [2 2];
        S2 [1 3] S2 [2 4];
        S2 [2 0] S2 [2 1];
    };
    match p {
        Some(p) => (p, total),
        None => {
            assert!(k == u32::MAX, "harness: no pair {}", k);
            (pair(S0, S0, &[], &[], None), total)
        },
    }
}

fn positions(dims: &[usize]) -> Vec<V> {
    let mut out: Vec<V> = vec![vec![]];
    for d in dims {
        out = out.into_iter().flat_map(|p| (0..*d).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
    }
    out
}

/// One client's nested walk.
struct Client {
    id: usize,
    outer: Box<dyn Walk>,
    left: Option<V>,
    inner: Option<Box<dyn Walk>>,
    both: Box<dyn Walk>,
    k: usize,
    /// steps of the outer and inner cursor so far
    i: usize,
    j: usize,
}

fn go<T>(p: &Pair, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match call(f) {
        Called::Done(x) => Some(x),
        o => {
            fail(format!("[panic] {}: {} ended with {:?}", p.name, what, o.map(|_| ())));
            None
        },
    }
}

fn run() {
    if chance(1, 4) {
        return resized();
    }
    let total = compiled(u32::MAX).1;
    let p = if chance(1, 2) {
        let mut card = 1;
        let mut draw = |rank: usize| {
            (0..rank)
                .map(|_| {
                    let d = if card > 24 { pick(&[1, 1, 1, 2, 0]) } else { pick(&[1, 2, 3, 2, 4, 0]) };
                    card *= d.max(1);
                    d
                })
                .collect::<V>()
        };
        let (l, r) = (draw(below(7) as usize), draw(below(7) as usize));
        run_time(&l, &r)
    } else {
        compiled(below(total)).0
    };
    fingerprint(hash_str(&p.name));
    sample(|| p.name.clone());
    note(|| format!("joining {}", p.name));
    let want: V = p.l.iter().chain(&p.r).cloned().collect();
    let refs = positions(&want);
    let (ls, rs) = (positions(&p.l), positions(&p.r));
    // what is said about the whole
    let Some(d) = go(&p, "concat", || (p.dims)()) else { return };
    if d.as_ref().is_some_and(|d| *d != want) {
        return fail(format!("[concat] {}: dimensions {:?}, expected {:?}", p.name, d, want));
    }
    let Some(f) = go(&p, "facts", || (p.facts)()) else { return };
    let (n, cards) = (want.len(), [ls.len(), rs.len(), refs.len()]);
    let right = Facts {
        rank: [p.l.len(), p.r.len(), n],
        card: cards,
        named: [n == 0, n == 1, n == 2],
        same: cards[0] == cards[2],
    };
    if f != right {
        return fail(format!("[facts] {}: {:?}, expected {:?}", p.name, f, right));
    }
    if let Some(s) = &p.resplit {
        match go(&p, "split", s) {
            Some(true) => {},
            Some(false) => return fail(format!("[split] {}: splitting does not undo joining", p.name)),
            None => return,
        }
    }
    let open = |id| {
        let (o, b) = (go(&p, "indices", || (p.open)(Side::Left))?, go(&p, "indices", || (p.open)(Side::Both))?);
        Some(Client { id, outer: o, left: None, inner: None, both: b, k: 0, i: 0, j: 0 })
    };
    let mut clients: Vec<Client> = vec![];
    let mut ids = 0;
    let mut spare: Option<Box<dyn Walk>> = None;
    let mut last = usize::MAX;
    for _ in 0..range(1, 60) {
        if failed() {
            return;
        }
        if clients.is_empty() || (clients.len() < 3 && chance(1, 12)) {
            let Some(c) = open(ids) else { return };
            ids += 1;
            clients.push(c);
            last = usize::MAX;
        }
        let who = below(clients.len() as u32) as usize;
        if last != usize::MAX && last != who {
            nontrivial();
            count("preempt.walk");
        }
        last = who;
        let c = &mut clients[who];
        // the outer step, when the inner cursor has ended or was never opened
        if c.inner.is_none() {
            let Some(l) = go(&p, "next of the left", || c.outer.step()) else { return };
            ev(1, c.id as u64, c.i as u64, || format!("walk {}: left -> {:?}", c.id, l));
            if l.as_ref() != ls.get(c.i) {
                return fail(format!("[left] {}: step {} of the left gave {:?}, expected {:?}", p.name, c.i, l, ls.get(c.i)));
            }
            let Some(l) = l else {
                if c.k != refs.len() {
                    return fail(format!("[walk] {}: the walk ended after {} of {} positions", p.name, c.k, refs.len()));
                }
                if c.k > 0 || refs.is_empty() {
                    count("op.complete");
                }
                clients.remove(who);
                last = usize::MAX;
                continue;
            };
            c.i += 1;
            c.j = 0;
            c.left = Some(l);
            // a fresh inner cursor, or a copy of one kept from before
            let copied = if chance(1, 2) { spare.as_ref().and_then(|s| s.copy()) } else { None };
            if copied.is_some() {
                count("copy.cursor");
                nontrivial();
            }
            c.inner = match copied {
                Some(s) => Some(s),
                None => go(&p, "indices", || (p.open)(Side::Right)),
            };
            if c.inner.is_none() {
                return;
            }
            if spare.is_none() && chance(1, 2) {
                spare = c.inner.as_ref().and_then(|i| i.copy());
            }
        }
        let op = below(12);
        fingerprint((who as u64) << 8 | op as u64);
        let inner = c.inner.as_mut().unwrap();
        let left = c.left.clone().unwrap();
        let mut seen: Vec<V> = vec![];
        let mut over = false;
        match op {
            0..=6 => match go(&p, "next of the right", || inner.step()) {
                Some(Some(r)) => seen.push(r),
                Some(None) => over = true,
                None => return,
            },
            7 => {
                // skip some: the joined cursor skips as many
                let room = rs.len() - c.j;
                if room > 0 {
                    let n = below(room as u32) as usize;
                    let Some(r) = go(&p, "nth of the right", || inner.skip(n)) else { return };
                    if r.as_ref() != rs.get(c.j + n) {
                        return fail(format!("[right] {}: nth({}) after {} gave {:?}", p.name, n, c.j, r));
                    }
                    if n > 0 && go(&p, "nth", || c.both.skip(n - 1)).is_none() {
                        return;
                    }
                    c.j += n;
                    c.k += n;
                    seen.push(r.unwrap());
                }
            },
            8 | 9 => {
                // the rest in bulk, perhaps with a consumer that crashes
                let crash_at = if op == 9 { range(1, 3) as usize } else { usize::MAX };
                let it = c.inner.take().unwrap();
                let r = {
                    let seen = &mut seen;
                    call(|| {
                        it.drain(&mut |x| {
                            seen.push(x);
                            if seen.len() == crash_at {
                                crash();
                            }
                        })
                    })
                };
                match r {
                    Called::Done(()) => over = true,
                    Called::Crashed => {
                        count("crash.callback");
                        nontrivial();
                    },
                    o => return fail(format!("[panic] {}: draining ended with {:?}", p.name, o.map(|_| ()))),
                }
            },
            10 => {
                count("abandon.inner");
                nontrivial();
                c.inner = None;
            },
            _ => {
                count("abandon.walk");
                nontrivial();
                clients.remove(who);
                last = usize::MAX;
                continue;
            },
        }
        for r in &seen {
            if Some(r) != rs.get(c.j) {
                return fail(format!("[right] {}: position {} of the right is {:?}, expected {:?}", p.name, c.j, r, rs.get(c.j)));
            }
            let Some(x) = go(&p, "concat_indices", || (p.join)(&left, r)) else { return };
            ev(2, c.id as u64, c.k as u64, || format!("walk {}: {:?} joined with {:?} is {:?}", c.id, left, r, x));
            if x != refs[c.k] {
                return fail(format!("[join] {}: {:?} joined with {:?} is {:?}, expected {:?}", p.name, left, r, x, refs[c.k]));
            }
            let Some(b) = go(&p, "next", || c.both.step()) else { return };
            if b.as_ref() != Some(&x) {
                return fail(format!("[order] {}: the joined shape's own cursor gave {:?} at {}, expected {:?}", p.name, b, c.k, x));
            }
            let Some((inside, diagonal)) = go(&p, "contains", || ((p.inside)(&x), (p.diagonal)(&x))) else { return };
            if !inside || diagonal != x.windows(2).all(|w| w[0] == w[1]) {
                return fail(format!("[position] {}: {:?} reported {} and {}", p.name, x, if inside { "inside" } else { "outside" }, if diagonal { "diagonal" } else { "not diagonal" }));
            }
            if let Some(s) = &p.split {
                let Some(y) = go(&p, "split_index", || s(&x)) else { return };
                if y != (left.clone(), r.clone()) {
                    return fail(format!("[split] {}: {:?} splits into {:?}, expected {:?}", p.name, x, y, (left, r)));
                }
            }
            c.j += 1;
            c.k += 1;
        }
        if over && c.j != rs.len() {
            return fail(format!("[right] {}: the right's cursor ended after {} of {} positions", p.name, c.j, rs.len()));
        }
        if over {
            c.inner = None;
            c.left = None;
        } else if c.inner.is_none() {
            // interrupted in the middle of a row: reopen the right's cursor where it stopped
            if chance(1, 2) && c.j < rs.len() {
                count("retry.row");
                let Some(mut it) = go(&p, "indices", || (p.open)(Side::Right)) else { return };
                if c.j > 0 && go(&p, "nth", || it.skip(c.j - 1)).is_none() {
                    return;
                }
                c.inner = Some(it);
            } else {
                // or give the walk up
                clients.remove(who);
                last = usize::MAX;
            }
        }
    }
}

/// Registers hold run-time shapes; clients resize them while others broadcast.
fn resized() {
    let rank = below(5) as usize;
    let mut regs: Vec<V> = (0..3).map(|_| (0..rank).map(|_| range(0, 3) as usize).collect()).collect();
    fingerprint(rank as u64);
    for _ in 0..range(1, 16) {
        if failed() {
            return;
        }
        let (i, j) = (below(3) as usize, below(3) as usize);
        match below(4) {
            0 if rank > 0 => {
                count("resize.shape");
                let k = below(rank as u32) as usize;
                regs[i][k] = if chance(1, 12) { usize::MAX } else { range(0, 4) as usize };
                note(|| format!("register {} is now {:?}", i, regs[i]));
            },
            1 if rank > 0 => {
                // the same sizes in another order
                count("resize.turn");
                let mut t = regs[j].clone();
                t.rotate_left(1);
                regs[i] = t;
            },
            2 => {
                let t = regs[j].clone();
                regs[i] = t;
            },
            _ => {
                let (a, b) = (regs[i].clone(), regs[j].clone());
                let got = call(|| broadcast(&a, &b));
                fingerprint(hash_str(&format!("{:?}{:?}", a, b)));
                ev(3, i as u64, j as u64, || format!("broadcast {:?} with {:?} -> {:?}", a, b, got));
                let want = if a == b { Ok(a.clone()) } else { Err([a.clone(), b.clone(), b.clone(), a.clone()]) };
                if a != b {
                    nontrivial();
                    count("conflict.sizes");
                }
                match got {
                    Called::Done(Some(g)) if g == want => {},
                    o => return fail(format!("[broadcast] {:?} with {:?} gives {:?}, expected {:?}", a, b, o, want)),
                }
            },
        }
    }
    if chance(1, 4) {
        fixed_broadcast();
    }
}

/// `None`: a scalar side went wrong.
fn broadcast(a: &[usize], b: &[usize]) -> Option<Result<V, [V; 4]>> {
    fn go<const N: usize>(a: &[usize], b: &[usize]) -> Option<Result<V, [V; 4]>> {
        let sized = |d: &[usize]| {
            let mut s = SDynamic::<N>([7; N]);
            for k in 0..N {
                s[k] = d[k];
            }
            s
        };
        let (a, b) = (sized(a), sized(b));
        let neutral = a.broadcast(S0).ok()? == a && S0.broadcast(b).ok()? == b;
        if !neutral {
            return None;
        }
        Some(a.broadcast(b).map(|s| s.0.to_vec()).map_err(|e| {
            let (l, r) = (e.left.0.to_vec(), e.right.0.to_vec());
            let e = e.reverse();
            [l, r, e.left.0.to_vec(), e.right.0.to_vec()]
        }))
    }
    match a.len() {
        0 => go::<0>(a, b),
        1 => go::<1>(a, b),
        2 => go::<2>(a, b),
        3 => go::<3>(a, b),
        _ => go::<4>(a, b),
    }
}

fn fixed_broadcast() {
    fn neutral<S: Broadcast<Shape = S> + Broadcast<S0, Shape = S> + PartialEq>(s: S) -> bool
    where
        S0: Broadcast<S, Shape = S>,
    {
        <S as Broadcast<S0>>::broadcast(s, S0).map_or(false, |x| x == s)
            && <S0 as Broadcast<S>>::broadcast(S0, s).map_or(false, |x| x == s)
            && <S as Broadcast<S>>::broadcast(s, s).map_or(false, |x| x == s)
    }
    let ok = call(|| {
        neutral(S0) && neutral(S1::<0>) && neutral(S1::<3>) && neutral(S2::<2, 3>) && neutral(S3::<1, 2, 3>) && neutral(S4::<1, 2, 1, 3>)
            && neutral(S5::<1, 2, 1, 3, 0>) && neutral(S6::<1, 2, 1, 3, 1, 1>)
    });
    count("op.fixed");
    if !matches!(ok, Called::Done(true)) {
        fail(format!("[broadcast] a fixed shape with itself or with a scalar: {:?}", ok));
    }
}
