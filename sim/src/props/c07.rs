//! C07: the four views of an expression agree on any one state.
use crate::{
    jac::JHow,
    ast::{Ast, B, U},
    build::{AnyBuilt, Built, El, Gen, Opts, Out, View},
    node::EKind,
    orch::Prop,
    refer::{grad_at, value_at, TN, E},
    sim::{below, chance, count, ev, fail, failed, fingerprint, mix, nontrivial, pick, range, run_tasks, sample, yield_now, Called},
    store::{Any, Db, IdA3, IdS, Kind, Tensor, F},
    world::*,
};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        run,
        rule: "the operator trees, the history of updates, resizes, outages and crashes, and the order in which the views were asked",
        real: "every operator with its dense, structured and shape evaluation, gradients, gradient expressions, duals and memos of /repo/aegir",
        stub: "the context (simulated store), the number type, the clients",
        quick: 900_000,
        thorough: 25_000_000,
        batch: 1000,
    }
}

/// What has been answered about one expression in the present state.
#[derive(Default)]
struct Seen {
    value: Option<(Tensor, View)>,
    /// per target: gradient
    grads: BTreeMap<(Any, Option<Any>), (Tensor, View)>,
    dims: Option<(Vec<usize>, View)>,
    gdims: BTreeMap<Any, (Vec<usize>, View)>,
    /// (view, class of the failure)
    failed: Option<(View, String)>,
}

struct World {
    db: Db,
    es: Vec<AnyBuilt>,
    seen: RefCell<Vec<Seen>>,
    /// memos hold values of the present state only
    fresh: std::cell::Cell<bool>,
}

/// At the edges of arithmetic (zero denominators, infinities, not-a-number) the dense and the structured
/// value still say the same, however the operands are represented. Multiplication is left out: a
/// structural zero times infinity is zero.
fn edges<X: El>() {
    let mut g = Gen::new(Opts { spec: true, max_size: 12, ..Opts::default() });
    let d = range(1, 3) as u32;
    let Some(b) = edge_tree::<X>(&mut g, d) else { return };
    let e = AnyBuilt::new(b);
    count("op.edges");
    fingerprint(mix(e.ast.hash(), 77));
    let db = Db::new(1);
    let sizes = Sizes::draw(0);
    for v in all_vars(std::slice::from_ref(&e)) {
        let dims = sizes.of(v.kind);
        let t = edge_value(&dims);
        fingerprint(t.hash());
        ev(30, v.n as u64, t.hash(), || format!("set {:?} = {:?}", v, t));
        db.set(v, t);
    }
    let mut plain = Plan::default();
    let v = exec(&db, 0, &e, View::Value, plain);
    plain.cfg.repr = chance(1, 2);
    let s = exec(&db, 0, &e, View::Spec, plain);
    match (v.ok(), s.ok()) {
        (Some(Out::Val(v)), Some(Out::Spec(lib, mine, _))) => {
            nontrivial();
            let same = |a: &Tensor, b: &Tensor| {
                a.dims == b.dims && a.data.iter().zip(&b.data).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
            };
            if !same(v, lib) || !same(v, mine) {
                fail(format!("[edges] {:?}: the dense value is {:?}, the structured one {:?}", e.ast, v, lib));
            }
        },
        _ => fail(format!("[edges] {:?} ends with {:?} and {:?}", e.ast, v.res, s.res)),
    }
}

fn edge_value(dims: &[usize]) -> Tensor {
    let n: usize = dims.iter().product();
    let x = || pick(&[0.0, 1.0, -1.0, 2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, -1e-308]);
    match below(4) {
        1 => Tensor::full(dims, x()),
        2 if !dims.is_empty() => Tensor::diagonal(dims, x()),
        3 => Tensor::full(dims, 0.0),
        _ => Tensor { dims: dims.to_vec(), data: (0..n).map(|_| x()).collect() },
    }
}

fn edge_tree<X: El>(g: &mut Gen, depth: u32) -> Option<Built<X>> {
    if depth == 0 || chance(1, 6) {
        let k = X::KIND;
        if chance(1, 2) && !k.dynamic() {
            let dims = crate::refer::static_dims(Any { kind: k, n: 0 })?;
            return Some(g.con(edge_value(&dims)));
        }
        let n = below(3) as u8;
        return Some(g.var::<X>(n));
    }
    if chance(1, 4) {
        let u = pick(&[U::Negate, U::Double, U::AddOne, U::OneSub, U::Square, U::Exp, U::Sin, U::Sigmoid, U::Abs, U::Sign]);
        let x = edge_tree::<X>(g, depth - 1)?;
        return Some(Built { dn: X::un(u, x.dn), ast: Rc::new(Ast::Un(u, x.ast)), ..x });
    }
    let b = pick(&[B::Div, B::Sub, B::Add]);
    // the sign of a computed zero may depend on the form, so only leaves are divided by
    let low = if b == B::Div { 0 } else { depth - 1 };
    match below(if X::MIXES && X::KIND != Kind::S { 4 } else { 2 }) {
        0 | 1 => {
            let (x, y) = (edge_tree::<X>(g, depth - 1)?, edge_tree::<X>(g, low)?);
            Some(Built { dn: X::bin(b, x.dn, y.dn), ast: Rc::new(Ast::Bin(b, x.ast, y.ast)), lo: 0.0, hi: 0.0, sym: false })
        },
        2 => {
            let (x, y) = (edge_tree::<X>(g, depth - 1)?, edge_tree::<F>(g, low)?);
            Some(Built { dn: X::bin_r(b, x.dn, y.dn), ast: Rc::new(Ast::Bin(b, x.ast, y.ast)), lo: 0.0, hi: 0.0, sym: false })
        },
        _ => {
            let (x, y) = (edge_tree::<F>(g, depth - 1)?, edge_tree::<X>(g, low)?);
            Some(Built { dn: X::bin_l(b, x.dn, y.dn), ast: Rc::new(Ast::Bin(b, x.ast, y.ast)), lo: 0.0, hi: 0.0, sym: false })
        },
    }
}

fn run() {
    if chance(1, 12) {
        return match below(6) {
            0 => edges::<F>(),
            1 => edges::<crate::build::A3>(),
            2 => edges::<crate::build::M22>(),
            3 => edges::<crate::build::V>(),
            4 => edges::<crate::build::T>(),
            _ => edges::<crate::build::M23>(),
        };
    }
    let cache = if chance(1, 2) { 8 } else { 0 };
    let mut g = Gen::new(Opts { cache, spec: chance(1, 3), diff: chance(2, 3), max_size: 18, ..Opts::default() });
    let mut es: Vec<AnyBuilt> = vec![];
    for _ in 0..range(1, 2) {
        g.size = 0;
        let d = range(1, 4) as u32;
        es.push(match below(3) {
            0 => AnyBuilt::new(g.gen_s(d)),
            1 => AnyBuilt::new(g.gen_a3(d)),
            _ => g.gen_any(d),
        });
    }
    for e in &es {
        fingerprint(e.ast.hash());
    }
    sample(|| format!("{:?}", es.iter().map(|e| &e.ast).collect::<Vec<_>>()));
    let vars = with_targets(&es);
    let slots: Vec<Any> = all_slots(&es).into_iter().collect();
    let n = es.len();
    let w = World {
        db: Db::new(3),
        es,
        seen: RefCell::new((0..n).map(|_| Seen::default()).collect()),
        fresh: std::cell::Cell::new(true),
    };
    let sizes = Sizes::draw(if chance(1, 4) { 16 } else { 0 });
    for v in &vars {
        set_var(&w.db, *v, &sizes);
    }
    for _ in 0..range(1, 4) {
        // a new state
        w.seen.borrow_mut().iter_mut().for_each(|s| *s = Seen::default());
        for _ in 0..range(0, 2) {
            if vars.is_empty() {
                break;
            }
            let v = vars[below(vars.len() as u32) as usize];
            w.fresh.set(false);
            match below(6) {
                0 => {
                    count("missing.outage");
                    ev(33, v.n as u64, v.kind as u64, || format!("{:?} becomes unavailable", v));
                    w.db.unset(v);
                },
                _ => {
                    if v.kind.dynamic() {
                        count("resize.value");
                    } else {
                        count("update.value");
                    }
                    set_var(&w.db, v, &sizes);
                },
            }
        }
        // stale memos are the user's business - but every view must then show the same stale value
        if chance(3, 4) {
            for s in &slots {
                w.db.unset(*s);
            }
            w.fresh.set(true);
        }
        let keep = !w.fresh.get();
        if chance(1, 4) && !slots.is_empty() && !keep {
            // two clients at once; the variables stand still
            let w = &w;
            let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
            for cl in 0..2usize {
                tasks.push(Box::new(move || {
                    for _ in 0..range(2, 6) {
                        if failed() {
                            return;
                        }
                        ask(w, cl, true);
                        yield_now();
                    }
                }));
            }
            run_tasks(4, tasks);
        } else {
            for _ in 0..range(2, 10) {
                if failed() {
                    return;
                }
                ask(&w, 0, false);
                if !keep && chance(1, 6) {
                    for s in &slots {
                        if chance(1, 2) {
                            count("clear.memo");
                            w.db.unset(*s);
                        }
                    }
                }
            }
        }
        if failed() {
            return;
        }
    }
}

fn view_of(e: &AnyBuilt) -> View {
    // few targets, so that the same gradient is asked for in several ways
    let (ls, la) = e.obj.levels();
    let (s, a) = (IdS(below(2) as u8), IdA3(0));
    match below(8) {
        0 => View::Value,
        1 => View::Spec,
        2 => View::Shape,
        _ if e.obj.target().is_some() => e.jac_view(e.obj.target().unwrap(), 2),
        _ => {
            let use_a = la >= 1 && (ls == 0 || chance(1, 2));
            if use_a {
                crate::sim::pick(&[View::GradA(a), View::DualA(a), View::TreeA(a), View::TreeSpecA(a), View::TreeShapeA(a)])
            } else if ls >= 2 && chance(1, 3) {
                let u = IdS(below(2) as u8);
                crate::sim::pick(&[View::Hess(s, u), View::HessDual(s, u)])
            } else if ls >= 1 {
                crate::sim::pick(&[View::GradS(s), View::DualS(s), View::TreeS(s), View::TreeSpecS(s), View::TreeShapeS(s)])
            } else {
                crate::sim::pick(&[View::Value, View::Spec, View::Shape])
            }
        },
    }
}

fn ask(w: &World, client: usize, concurrent: bool) {
    let i = below(w.es.len() as u32) as usize;
    let e = &w.es[i];
    let view = view_of(e);
    let mut p = plan(if chance(1, 4) { 1 } else { 0 });
    p.cfg.hide = 0;
    if !concurrent {
        p.cfg.preempt = 0;
        p.yield_op = 0;
    } else {
        p.cfg.preempt = 16;
    }
    if !w.es[i].ast.slots().is_empty() && chance(1, 6) {
        p.cfg.lose = 32;
    }
    let d = exec(&w.db, client, e, view, p);
    fingerprint(mix(view.code(), mix(i as u64, d.res_class())));
    if w.fresh.get() && !judge(&w.db, e, view, &d, "view") {
        return;
    }
    if let Called::Panicked(m) = &d.res {
        return fail(format!("[panic] {:?} of {:?} panicked: {}", view, e.ast, m));
    }
    let mut all = w.seen.borrow_mut();
    let seen = &mut all[i];
    match &d.res {
        Called::Done(Ok(o)) => note(w, e, seen, view, o),
        Called::Done(Err(err)) => {
            let k = match &err.kind {
                EKind::Shape(..) => "shapes".to_string(),
                k => format!("{:?}", k),
            };
            // a gradient also needs its target to be there
            let mine = match &err.kind {
                EKind::Missing(id) => e.ast.vars().contains(id),
                _ => true,
            };
            if mine && matches!(view, View::Value | View::Spec | View::DualS(_) | View::DualA(_) | View::Jac(JHow::Dual, _)) {
                if let Some((t, v)) = &seen.value {
                    // a memo filled meanwhile may rescue a value, but not the other way round
                    if e.ast.slots().is_empty() {
                        return fail(format!("[error] {:?}: {:?} gave {:?}, {:?} fails with {:?}", e.ast, v, t, view, err));
                    }
                }
                seen.failed = Some((view, k));
            }
        },
        _ => {},
    }
}

fn note(w: &World, e: &AnyBuilt, seen: &mut Seen, view: View, o: &Out) {
    let (mut value, mut grad, mut dims, mut gdims) = (None, None, None, None);
    let ts = view.targets();
    match (view, o) {
        (View::Value, Out::Val(t)) => value = Some(t.clone()),
        (View::Spec, Out::Spec(lib, mine, _)) => {
            if lib.dims != mine.dims || !lib.data.iter().zip(&mine.data).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())) {
                return fail(format!("[dense] the structured value {:?} of {:?} made dense is {:?}", mine, e.ast, lib));
            }
            value = Some(lib.clone());
        },
        (View::Shape, Out::Shape(d)) => dims = Some(d.clone()),
        (View::HessDual(..), Out::Dual(v, g)) => {
            // the value half is the first gradient
            let key = (ts[0], None);
            cmp(w, e, seen.grads.get(&key).cloned(), v, view, Some(key));
            seen.grads.entry(key).or_insert((v.clone(), view));
            grad = Some(g.clone());
        },
        (_, Out::Dual(v, g)) => {
            value = Some(v.clone());
            grad = Some(g.clone());
        },
        (_, Out::Val(g)) => grad = Some(g.clone()),
        (_, Out::Spec(lib, _, _)) => grad = Some(lib.clone()),
        (_, Out::Shape(d)) => gdims = Some(d.clone()),
    }
    if failed() {
        return;
    }
    let say = |m: String| fail(format!("[agree] {:?}: {}", e.ast, m));
    if let Some(t) = value {
        if let Some((v, k)) = &seen.failed {
            if e.ast.slots().is_empty() {
                return say(format!("{:?} fails with {}, {:?} gives {:?}", v, k, view, t));
            }
        }
        cmp(w, e, seen.value.clone(), &t, view, None);
        if seen.value.is_none() {
            seen.value = Some((t, view));
        }
    }
    if let Some(g) = grad {
        let key = (ts[0], ts.get(1).cloned());
        cmp(w, e, seen.grads.get(&key).cloned(), &g, view, Some(key));
        if let Some((d, v)) = seen.gdims.get(&ts[0]) {
            if key.1.is_none() && *d != g.dims {
                return say(format!("{:?} says the gradient has shape {:?}, {:?} gives {:?}", v, d, view, g));
            }
        }
        seen.grads.entry(key).or_insert((g, view));
    }
    if let Some(d) = dims {
        if let Some((k, v)) = &seen.dims {
            if *k != d {
                return say(format!("{:?} says {:?}, {:?} says {:?}", v, k, view, d));
            }
        }
        if let Some((v, k)) = &seen.failed {
            if k == "shapes" && !blind(&e.ast) && e.ast.slots().is_empty() {
                return say(format!("{:?} fails with {}, {:?} says {:?}", v, k, view, d));
            }
        }
        seen.dims = Some((d, view));
    }
    if let Some(d) = gdims {
        if let Some((g, v)) = seen.grads.get(&(ts[0], None)) {
            if g.dims != d {
                return say(format!("{:?} says the gradient has shape {:?}, {:?} gave {:?}", view, d, v, g));
            }
        }
        seen.gdims.insert(ts[0], (d, view));
    }
    if let (Some((t, v)), Some((d, u))) = (&seen.value, &seen.dims) {
        if t.dims != *d {
            return say(format!("{:?} gave {:?}, {:?} says {:?}", v, t, u, d));
        }
    }
}

/// Compare two answers to the same question, by what rounding allows.
fn cmp(w: &World, e: &AnyBuilt, before: Option<(Tensor, View)>, t: &Tensor, view: View, grad: Option<(Any, Option<Any>)>) {
    let Some((b, v)) = before else { return };
    if failed() {
        return;
    }
    if v != view {
        nontrivial();
        count("oracle.pair");
    }
    let bad = |m: String| fail(format!("[agree] {:?}: {:?} gave {:?}, {:?} gives {:?}: {}", e.ast, v, b, view, t, m));
    if b.dims != t.dims || b.data.len() != t.data.len() {
        return bad("shapes differ".into());
    }
    let want: Option<TN<E>> = if w.fresh.get() {
        let get = |id: Any| if id.is_slot() { None } else { w.db.get(id) };
        match grad {
            None => value_at(&e.ast, &get, true).val,
            Some((s, u)) => {
                let gv = match (s.kind, u) {
                    _ if e.obj.target().is_some() => View::Jac(JHow::Eval, s),
                    (Kind::S, Some(u)) => View::Hess(IdS(s.n), IdS(u.n)),
                    (Kind::S, None) => View::GradS(IdS(s.n)),
                    _ => View::GradA(IdA3(s.n)),
                };
                w.db.get(s).and_then(|t| grad_at(&e.ast, gv, &get, &t.dims))
            },
        }
    } else {
        None
    };
    let scale = b.data.iter().chain(&t.data).filter(|x| x.is_finite()).fold(1.0f64, |a, x| a.max(x.abs()));
    if want.is_none() && steps(&e.ast) {
        return;
    }
    for (k, (x, y)) in b.data.iter().zip(&t.data).enumerate() {
        if x == y || (x.is_nan() && y.is_nan()) {
            continue;
        }
        let tol = match &want {
            Some(r) if r.data.len() == b.data.len() => {
                let r = &r.data[k];
                if !r.v.is_finite() || !r.e.is_finite() {
                    continue;
                }
                1e4 * r.e + 1e-9 * r.v.abs() + 1e-9
            },
            _ => 1e-6 * scale,
        };
        if !((x - y).abs() <= 2.0 * tol) {
            return bad(format!("element {}", k));
        }
    }
}

fn steps(a: &Ast) -> bool {
    let mut b = false;
    a.walk(&mut |n| {
        if let Ast::Un(u, _) = n {
            b |= u.steps() || matches!(u, crate::ast::U::Abs)
        }
    });
    b
}

fn blind(a: &Ast) -> bool {
    let mut b = false;
    a.walk(&mut |n| b |= matches!(n, Ast::Sum(_) | Ast::Pow(..)));
    b
}
