//! C06: how a context represents a value never changes any result.
use crate::{
    alloc::harness,
    build::{range_of, value, AnyBuilt, Gen, Opts, Out, View, A2, A3, G, M22, M23, M32, M33, T, V},
    field::SimF,
    node::{DErr, EKind, IntoDErr},
    orch::Prop,
    refer::{contracted, differs, E, Tol, TN},
    sim::{below, call, chance, count, count_n, ev, fail, failed, fingerprint, mix, nontrivial, pick, range, run_tasks, sample, yield_now, Called},
    store::{represent, Any, Buf, Db, Tensor, F, R3},
    world::*,
};
use aegir::buffers::{
    contract, contract_shape, contract_spec,
    shapes::{Shaped, ShapeOf},
    Buffer, Class, Contract, IntoSpec, Spec,
};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        run,
        rule: "the operator trees, the values (homogeneous, diagonal or mixed) and the representation drawn at every read",
        real: "every operator, structured evaluation and shortcuts, constants, contractions, Spec and the classes of /repo/aegir",
        stub: "the context (simulated store that redraws the representation at every read), the number type, the clients",
        quick: 2_500_000,
        thorough: 80_000_000,
        batch: 2000,
    }
}

/// A value with a liking for structure.
fn structured(id: Any, s: &Sizes) -> Tensor {
    let d = s.of(id.kind);
    let r = range_of(id);
    match below(4) {
        0 | 1 => Tensor::full(&d, crate::build::element(r.0, r.1)),
        2 if r.0 <= 0.0 => Tensor::diagonal(&d, crate::build::element(r.0, r.1)),
        _ => draw_value(id, r, s),
    }
}

fn run() {
    if chance(1, 4) {
        return buffers();
    }
    if chance(1, 32) {
        return crate::exact::run();
    }
    let diff = chance(1, 3);
    let mut g = Gen::new(Opts { cache: if chance(1, 8) { 6 } else { 0 }, spec: chance(1, 2), diff, ..Opts::default() });
    let d = range(1, 4) as u32;
    let e = if diff && chance(1, 2) { AnyBuilt::new(g.gen_s(d)) } else { g.gen_any(d) };
    fingerprint(e.ast.hash());
    sample(|| format!("{:?}", e.ast));
    let slots: Vec<Any> = e.ast.slots().into_iter().collect();
    let db = Db::new(2);
    let sizes = Sizes::draw(if chance(1, 4) { 16 } else { 0 });
    let es = [e.clone()];
    let vars = with_targets(&es);
    let put = |v: Any| {
        let t = structured(v, &sizes);
        ev(30, v.n as u64 | (v.kind as u64) << 8, t.hash(), || format!("set {:?} = {:?}", v, t));
        fingerprint(t.hash());
        db.set(v, t);
    };
    for v in &vars {
        put(*v);
    }
    let gone = if !vars.is_empty() && chance(1, 8) {
        let v = vars[below(vars.len() as u32) as usize];
        count("missing.outage");
        ev(33, v.n as u64, v.kind as u64, || format!("{:?} becomes unavailable", v));
        db.unset(v);
        true
    } else {
        false
    };
    let clear = || {
        for s in &slots {
            db.unset(*s);
        }
    };
    for _ in 0..range(1, 3) {
        let view = e.any_view(true);
        clear();
        let dense = exec(&db, 0, &e, view, Plan::default());
        if !judge(&db, &e, view, &dense, "dense") {
            return;
        }
        for _ in 0..range(1, 3) {
            // the very same state, handed out in other forms; memos as well
            if chance(1, 2) {
                clear();
            }
            let mut p = Plan::default();
            p.cfg.repr = true;
            let d = exec(&db, 0, &e, view, p);
            fingerprint(mix(view.code(), d.res_class()));
            if !judge(&db, &e, view, &d, "represented") {
                return;
            }
            same(&e, view, &dense, &d);
            if failed() {
                return;
            }
        }
        if !vars.is_empty() && chance(1, 2) {
            let v = vars[below(vars.len() as u32) as usize];
            if db.get(v).is_some() {
                count("update.value");
                put(v);
            }
        }
    }
    // other clients change values - and with them what representations are possible - during the call
    if chance(1, 5) && !vars.is_empty() && !gone {
        clear();
        let (db, e, vars, put, slots) = (&db, &e, &vars, &put, &slots);
        let reader = move || {
            for _ in 0..range(1, 3) {
                let view = e.any_view(true);
                let mut p = Plan::default();
                p.cfg.repr = true;
                p.cfg.preempt = 24;
                let d = exec(db, 1, e, view, p);
                if !judge(db, e, view, &d, "concurrent") {
                    return;
                }
                yield_now();
            }
        };
        let writer = move || {
            for _ in 0..range(1, 8) {
                count("update.value");
                put(vars[below(vars.len() as u32) as usize]);
                for s in slots {
                    db.unset(*s);
                }
                yield_now();
            }
        };
        run_tasks(4, vec![Box::new(reader), Box::new(writer)]);
    }
}

/// Two calls on one state that differ in representation only.
fn same(e: &AnyBuilt, view: View, a: &Done, b: &Done) {
    let bad = |why: String| fail(format!("[same] {:?} of {:?}: {}; dense {:?}, represented {:?}", view, e.ast, why, a.res, b.res));
    match (&a.res, &b.res) {
        (Called::Done(Ok(x)), Called::Done(Ok(y))) => {
            nontrivial();
            let dims = |o: &Out| match o {
                Out::Val(t) => (t.dims.clone(), vec![]),
                Out::Spec(_, t, _) => (t.dims.clone(), vec![]),
                Out::Shape(d) => (d.clone(), vec![]),
                Out::Dual(a, b) => (a.dims.clone(), b.dims.clone()),
            };
            if dims(x) != dims(y) {
                bad("shapes differ".into());
            }
        },
        (Called::Done(Err(x)), Called::Done(Err(y))) => {
            if x.kind != y.kind || x.path != y.path {
                // more than one thing is wrong, and another one was found first?
                count("oracle.order");
                if matches!(x.kind, EKind::Shape(..)) != matches!(y.kind, EKind::Shape(..)) {
                    count("oracle.order_kind");
                }
            }
        },
        _ => bad("one succeeds, the other fails".into()),
    }
}

// --------------------------------------------------------------------------------------------
// Buffers
// --------------------------------------------------------------------------------------------
fn buffers() {
    count("op.buffers");
    nontrivial();
    for _ in 0..range(1, 4) {
        if failed() {
            return;
        }
        match below(4) {
            0 => maps(),
            1 => zips(),
            2 => contractions(),
            _ => builders(),
        }
    }
}

fn tensor(dims: &[usize]) -> Tensor {
    match below(4) {
        0 => Tensor::full(dims, crate::build::element(-2.0, 2.0)),
        1 => Tensor::diagonal(dims, crate::build::element(-2.0, 2.0)),
        _ if dims.is_empty() => Tensor::scalar(crate::build::element(-2.0, 2.0)),
        _ => value(dims, (-2.0, 2.0)),
    }
}

/// Dimensions for a buffer: the ones it has, or some.
fn dims_of<B: Buf>(rank: usize) -> Vec<usize> {
    let long = rank == 1 && chance(1, 6);
    B::fixed_dims().unwrap_or_else(|| (0..rank).map(|_| if long { pick(&[9, 8, 17, 40]) } else { below(5) as usize }).collect())
}
fn rank<B: Buf>() -> usize {
    <ShapeOf<B> as aegir::buffers::shapes::Shape>::DIM
}

/// Our own dense form of a structured buffer.
fn dense<B: Buf>(s: &Spec<B>) -> Tensor {
    harness(|| match s {
        Spec::Raw(b) => b.to_tensor(),
        Spec::Full(s, x) => Tensor::full(&B::dims_of(s), x.0),
        Spec::Diagonal(s, x) => Tensor::diagonal(&B::dims_of(s), x.0),
        _ => panic!("harness: unknown representation"),
    })
}

fn ok_tensor(what: &str, got: Called<Result<Tensor, DErr>>, want: &Tensor, args: &[&Tensor]) {
    ev(60, 0, want.hash(), || format!("{} of {:?}: {:?}", what, args, got));
    match &got {
        Called::Done(Ok(t)) if t.dims == want.dims && t.data.iter().zip(&want.data).all(|(a, b)| a == b) && t.data.len() == want.data.len() => {},
        _ => fail(format!("[buffer] {} of {:?} gave {:?}, expected {:?}", what, args, got, want)),
    }
}

fn ok_near(what: &str, got: Called<Result<Tensor, DErr>>, want: &TN<E>, args: &[&Tensor]) {
    ev(61, 0, 0, || format!("{} of {:?}: {:?}", what, args, got));
    match &got {
        Called::Done(Ok(t)) => {
            if let Some(m) = differs(t, want, Tol::Value) {
                fail(format!("[buffer] {} of {:?}: {}", what, args, m));
            }
        },
        _ => fail(format!("[buffer] {} of {:?} gave {:?}", what, args, got)),
    }
}

type A9 = [F; 9];
type M59 = [[F; 9]; 5];
type M95 = [[F; 5]; 9];

macro_rules! any_kind {
    ($m:ident) => {
        match below(16) {
            11 => $m!(A9),
            12 => $m!(M59),
            13 => $m!(M95),
            14 => $m!([F; 1]),
            15 => $m!([[[F; 5]; 1]; 6]),
            0 => $m!(F),
            1 => $m!(A2),
            2 => $m!(A3),
            3 => $m!(V),
            4 => $m!(T),
            5 => $m!(M22),
            6 => $m!(M23),
            7 => $m!(M32),
            8 => $m!(M33),
            9 => $m!(R3),
            _ => $m!(G),
        }
    };
}

fn maps() {
    // not zero at zero
    let k = pick(&[1.0, 0.0, -3.0]);
    let f = |x: f64| x * x - 2.0 * x + k;
    macro_rules! go {
        ($t:ty) => {{
            let t = tensor(&dims_of::<$t>(rank::<$t>()));
            fingerprint(t.hash());
            let s: Spec<$t> = represent(&t, true);
            let want = Tensor { dims: t.dims.clone(), data: t.data.iter().map(|x| f(*x)).collect() };
            match below(3) {
                0 => {
                    let got = call(|| s.map(|x: F| SimF(f(x.0)))).map(|s| Ok(dense(&s)));
                    ok_tensor("Spec::map", got, &want, &[&t]);
                },
                1 => {
                    // dense again through the library
                    let got = call(|| s.map(|x: F| SimF(f(x.0))).unwrap()).map(|s| Ok(s.to_tensor()));
                    ok_tensor("Spec::map, unwrap", got, &want, &[&t]);
                },
                _ => {
                    let got = call(|| s.clone().into_spec().shape()).map(|s| <$t as Buf>::dims_of(&s));
                    if !matches!(&got, Called::Done(d) if *d == t.dims) {
                        fail(format!("[buffer] shape of {:?} is {:?}", t, got));
                    }
                    let got = call(|| s.unwrap()).map(|b| Ok(b.to_tensor()));
                    ok_tensor("Spec::unwrap", got, &t, &[&t]);
                },
            }
        }};
    }
    any_kind!(go)
}

fn zips() {
    let f = |x: f64, y: f64| x - 2.0 * y + 0.5;
    macro_rules! go {
        ($x:ty, $y:ty) => {{
            let (a, b) = (tensor(&dims_of::<$x>(rank::<$x>())), tensor(&dims_of::<$y>(rank::<$y>())));
            fingerprint(mix(a.hash(), b.hash()));
            let (s, t): (Spec<$x>, Spec<$y>) = (represent(&a, true), represent(&b, true));
            let got = call(|| s.zip_map(&t, |x: F, y: F| SimF(f(x.0, y.0))).map_err(IntoDErr::into_derr)).map(|r| r.map(|s| dense(&s)));
            let before = dense(&t);
            if before.data != b.data {
                fail(format!("[buffer] Spec::zip_map changed its right operand from {:?} to {:?}", b, before));
            }
            zipped(got, &a, &b, &f)
        }};
    }
    macro_rules! same {
        ($t:ty) => {
            go!($t, $t)
        };
    }
    macro_rules! right {
        ($t:ty) => {
            go!($t, F)
        };
    }
    macro_rules! left {
        ($t:ty) => {
            go!(F, $t)
        };
    }
    match below(3) {
        0 => any_kind!(same),
        1 => mixed!(right),
        _ => mixed!(left),
    }
}

/// Kinds that combine elementwise with scalars.
macro_rules! mixed {
    ($m:ident) => {
        match below(11) {
            8 => $m!(A9),
            9 => $m!(M59),
            10 => $m!(M95),
            0 => $m!(A2),
            1 => $m!(A3),
            2 => $m!(V),
            3 => $m!(M22),
            4 => $m!(M23),
            5 => $m!(M33),
            6 => $m!(R3),
            _ => $m!(G),
        }
    };
}
use mixed;

fn zipped(got: Called<Result<Tensor, DErr>>, a: &Tensor, b: &Tensor, f: &dyn Fn(f64, f64) -> f64) {
    if a.dims == b.dims || a.dims.is_empty() || b.dims.is_empty() {
        let dims = if a.dims.is_empty() { &b.dims } else { &a.dims };
        let n: usize = dims.iter().product();
        let at = |t: &Tensor, k: usize| if t.dims.is_empty() { t.data[0] } else { t.data[k] };
        let want = Tensor { dims: dims.clone(), data: (0..n).map(|k| f(at(a, k), at(b, k))).collect() };
        ok_tensor("Spec::zip_map", got, &want, &[a, b]);
    } else {
        count("conflict.sizes");
        match &got {
            Called::Done(Err(e)) if e.kind == EKind::Shape(a.dims.clone(), b.dims.clone()) => {},
            _ => fail(format!("[buffer] Spec::zip_map of {:?} and {:?} gave {:?}", a, b, got)),
        }
    }
}

fn pair<X, Y, const AX: usize>()
where
    X: Buf + Contract<Y, AX>,
    Y: Buf,
    X::Output: Buf,
    aegir::buffers::shapes::IncompatibleShapes<<X as Shaped>::Shape, <Y as Shaped>::Shape>: IntoDErr,
{
    let (a, b) = (tensor(&dims_of::<X>(rank::<X>())), tensor(&dims_of::<Y>(rank::<Y>())));
    fingerprint(mix(mix(a.hash(), b.hash()), AX as u64));
    count_n("op.contract", 1);
    let want = contracted(AX, &a, &b);
    let (x, y) = (X::from_tensor(&a), Y::from_tensor(&b));
    let got = call(|| contract::<AX, X, Y>(x, y).map_err(IntoDErr::into_derr)).map(|r| r.map(|b| b.to_tensor()));
    ok_near(&format!("contract<{}>", AX), got, &want, &[&a, &b]);
    for _ in 0..2 {
        let (s, t): (Spec<X>, Spec<Y>) = (represent(&a, true), represent(&b, true));
        let got = call(|| contract_spec::<AX, X, Y>(s, t).map_err(IntoDErr::into_derr)).map(|r| r.map(|s| dense(&s)));
        ok_near(&format!("contract_spec<{}>", AX), got, &want, &[&a, &b]);
    }
    let got = call(|| contract_shape::<AX, X, Y>(X::shape_of(&a.dims), Y::shape_of(&b.dims)).map_err(IntoDErr::into_derr))
        .map(|r| r.map(|s| <X::Output as Buf>::dims_of(&s)));
    if !matches!(&got, Called::Done(Ok(d)) if *d == want.dims) {
        fail(format!("[buffer] contract_shape<{}> of {:?} and {:?} is {:?}, expected {:?}", AX, a.dims, b.dims, got, want.dims));
    }
}

fn contractions() {
    match below(46) {
        0 => pair::<F, F, 0>(),
        1 => pair::<A3, F, 0>(),
        2 => pair::<F, A3, 0>(),
        3 => pair::<A2, A2, 0>(),
        4 => pair::<A2, A3, 0>(),
        5 => pair::<A3, A2, 0>(),
        6 => pair::<A3, A3, 0>(),
        7 => pair::<M22, F, 0>(),
        8 => pair::<M23, F, 0>(),
        9 => pair::<F, M32, 0>(),
        10 => pair::<F, M33, 0>(),
        11 => pair::<F, F, 1>(),
        12 => pair::<A2, A2, 1>(),
        13 => pair::<A3, A3, 1>(),
        14 => pair::<M22, A2, 1>(),
        15 => pair::<M23, A3, 1>(),
        16 => pair::<M32, A2, 1>(),
        17 => pair::<M33, A3, 1>(),
        18 => pair::<A2, M22, 1>(),
        19 => pair::<A2, M23, 1>(),
        20 => pair::<A3, M32, 1>(),
        21 => pair::<A3, M33, 1>(),
        22 => pair::<M22, M22, 1>(),
        23 => pair::<M23, M32, 1>(),
        24 => pair::<M32, M23, 1>(),
        25 => pair::<M33, M33, 1>(),
        // longer ones
        26 => pair::<A9, F, 0>(),
        27 => pair::<F, A9, 0>(),
        28 => pair::<A9, A9, 0>(),
        29 => pair::<[F; 5], A9, 0>(),
        30 => pair::<A9, A2, 0>(),
        31 => pair::<M59, F, 0>(),
        32 => pair::<F, M95, 0>(),
        33 => pair::<A9, A9, 1>(),
        34 => pair::<[F; 8], [F; 8], 1>(),
        35 => pair::<[F; 5], [F; 5], 1>(),
        36 => pair::<[F; 1], [F; 1], 1>(),
        37 => pair::<M59, A9, 1>(),
        38 => pair::<M95, [F; 5], 1>(),
        39 => pair::<A9, M95, 1>(),
        40 => pair::<[F; 5], M59, 1>(),
        41 => pair::<M59, M95, 1>(),
        42 => pair::<M95, M59, 1>(),
        43 => pair::<M59, [[F; 1]; 9], 1>(),
        44 => pair::<[[F; 9]; 1], M95, 1>(),
        _ => pair::<[[F; 9]; 9], [[F; 9]; 9], 1>(),
    }
}

fn builders() {
    let x = crate::build::element(-2.0, 2.0);
    macro_rules! go {
        ($t:ty) => {{
            type C = <$t as Buffer>::Class;
            let d = dims_of::<$t>(rank::<$t>());
            let s: ShapeOf<$t> = <$t as Buf>::shape_of(&d);
            fingerprint(mix((std::any::TypeId::of::<$t>() == std::any::TypeId::of::<Vec<F>>()) as u64, d.iter().fold(x.to_bits(), |a, n| mix(a, *n as u64))));
            let t = |b: $t| Ok(b.to_tensor());
            let what = below(9);
            let (name, got, want) = match what {
                0 => ("Class::full", call(|| <C as Class<ShapeOf<$t>>>::full(s, SimF(x))).map(t), Tensor::full(&d, x)),
                1 => ("Class::zeroes", call(|| <C as Class<ShapeOf<$t>>>::zeroes(s)).map(t), Tensor::full(&d, 0.0)),
                2 => ("Class::ones", call(|| <C as Class<ShapeOf<$t>>>::ones(s)).map(t), Tensor::full(&d, 1.0)),
                3 => ("Class::diagonal", call(|| <C as Class<ShapeOf<$t>>>::diagonal(s, SimF(x))).map(t), Tensor::diagonal(&d, x)),
                4 => ("Class::identity", call(|| <C as Class<ShapeOf<$t>>>::identity(s)).map(t), Tensor::diagonal(&d, 1.0)),
                5 => ("Spec::zeroes", call(|| Spec::<$t>::zeroes(s).unwrap()).map(t), Tensor::full(&d, 0.0)),
                6 => ("Spec::ones", call(|| Spec::<$t>::ones(s).unwrap()).map(t), Tensor::full(&d, 1.0)),
                7 => ("Spec::eye", call(|| Spec::<$t>::eye(s).unwrap()).map(t), Tensor::diagonal(&d, 1.0)),
                _ => {
                    let r: Spec<$t> = represent(&Tensor::diagonal(&d, x), true);
                    ("Spec::shape", call(|| r.shape()).map(|s| Ok(Tensor::full(&<$t as Buf>::dims_of(&s), 0.0))), Tensor::full(&d, 0.0))
                },
            };
            ok_tensor(name, got, &want, &[&Tensor::full(&d, x)]);
        }};
    }
    any_kind!(go)
}

