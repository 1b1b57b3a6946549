//! C08: a training run sees true gradients, and faults never bend its trajectory.
use crate::{
    jac::JHow,
    ast::Ast,
    build::{range_of, AnyBuilt, Gen, Opts, Out, View},
    orch::Prop,
    refer::{differs, grad_at, value_at, Tol, E, TN},
    sim::{below, chance, count, ev, fail, failed, fingerprint, mix, nontrivial, pick, range, run_tasks, sample, yield_now, Called},
    store::{Any, Db, IdA3, IdS, Kind, Tensor},
    world::*,
};
use std::cell::{Cell, RefCell};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        run,
        rule: "the loss, the trained parameters, the gradient views and the sequence of (step, attempt, outcome)",
        real: "every differentiable operator, gradients of first and second order, gradient expressions, duals and memos of /repo/aegir",
        stub: "the optimiser, the context (simulated store: durable parameters, volatile memos), the number type, the second client",
        quick: 500_000,
        thorough: 12_000_000,
        batch: 1000,
    }
}

struct Job {
    loss: AnyBuilt,
    params: Vec<Any>,
    /// per step and parameter: how the gradient is asked for
    views: Vec<Vec<View>>,
    /// per step: new values of the other variables
    data: Vec<Vec<(Any, Tensor)>>,
    init: Vec<(Any, Tensor)>,
    lr: f64,
}

fn run() {
    if chance(1, 10) {
        return known_sites();
    }
    if chance(1, 24) {
        return crate::extreme::grad();
    }
    if chance(1, 24) {
        return crate::exactgrad::run();
    }
    let cache = if chance(1, 3) { 8 } else { 0 };
    let mut g = Gen::new(Opts { cache, diff: true, dynamic: false, spec: chance(1, 6), max_size: 18 });
    let d = range(1, 4) as u32;
    let loss = match below(6) {
        0..=2 => AnyBuilt::new(g.gen_s(d)),
        3 | 4 => AnyBuilt::new(vector_loss(&mut g, d)),
        // any other kind of residual; its first element is what is minimised
        _ if chance(1, 2) => g.gen_any(d),
        _ if chance(1, 3) => crate::jac::gen_dyn(&mut g, d),
        _ => crate::jac::gen(&mut g, d),
    };
    let (ls, la) = loss.obj.levels();
    let target = loss.obj.target();
    if ls == 0 && la == 0 && target.is_none() {
        return;
    }
    fingerprint(loss.ast.hash());
    sample(|| format!("{:?}", loss.ast));
    let es = [loss.clone()];
    let vars = with_targets(&es);
    let sizes = Sizes::draw(0);
    let mut params: Vec<Any> = vars
        .iter()
        .cloned()
        .filter(|v| (v.kind == Kind::S && ls > 0 && v.n < 4) || (v.kind == Kind::A3 && la > 0) || Some(v.kind) == target)
        .filter(|_| chance(2, 3))
        .collect();
    params.truncate(4);
    let steps = range(1, 4) as usize;
    let job = Job {
        views: (0..steps).map(|_| params.iter().map(|p| how(*p, ls, &loss)).collect()).collect(),
        data: (0..steps)
            .map(|_| {
                vars.iter()
                    .filter(|v| !params.contains(v) && chance(1, 3))
                    .map(|v| (*v, draw_value(*v, range_of(*v), &sizes)))
                    .collect()
            })
            .collect(),
        init: vars.iter().map(|v| (*v, draw_value(*v, range_of(*v), &sizes))).collect(),
        lr: pick(&[0.1, 0.01, 0.5]),
        loss,
        params,
    };
    for p in &job.params {
        fingerprint(mix(p.n as u64, p.kind as u64));
    }
    let Some(calm) = train(&job, false) else { return };
    for _ in 0..range(1, 2) {
        let Some(stormy) = train(&job, true) else { return };
        for (k, (a, b)) in calm.iter().zip(&stormy).enumerate() {
            for (p, (x, y)) in job.params.iter().zip(a.iter().zip(b)) {
                if !x.same_bits(y) {
                    return fail(format!(
                        "[trajectory] after step {} of training {:?}, {:?} is {:?}; without the faults it is {:?}",
                        k, job.loss.ast, p, y, x
                    ));
                }
            }
        }
    }
}

fn vector_loss(g: &mut Gen, d: u32) -> crate::build::Built<crate::store::F> {
    let x = g.gen_a3(d.saturating_sub(1));
    let y = g.gen_a3(d.saturating_sub(1));
    let b = if x.sym { g.dot_any(&x, &y) } else { None };
    b.unwrap_or_else(|| g.gen_s(d))
}

fn how(p: Any, ls: u8, loss: &AnyBuilt) -> View {
    if loss.obj.target().is_some() {
        let how = pick(&[JHow::Eval, JHow::Tree, JHow::TreeSpec, JHow::Dual]);
        return View::Jac(how, p);
    }
    if p.kind == Kind::S {
        let t = IdS(p.n);
        if ls >= 2 && chance(1, 4) {
            return View::HessDual(t, t);
        }
        if ls >= 2 && chance(1, 8) {
            return View::Hess(t, IdS(below(4) as u8));
        }
        pick(&[View::GradS(t), View::DualS(t), View::TreeS(t), View::TreeSpecS(t)])
    } else {
        let t = IdA3(p.n);
        pick(&[View::GradA(t), View::DualA(t), View::TreeA(t), View::TreeSpecA(t)])
    }
}

/// Returns the parameters after each step, or nothing if a violation was found.
fn train(job: &Job, faults: bool) -> Option<Vec<Vec<Tensor>>> {
    ev(70, faults as u64, 0, || format!("--- training {} faults", if faults { "with" } else { "without" }));
    let slots: Vec<Any> = job.loss.ast.slots().into_iter().collect();
    // the durable state: survives a restart
    let durable: RefCell<Vec<(Any, Tensor)>> = RefCell::new(job.init.clone());
    let db = RefCell::new(fresh(&durable.borrow()));
    let out: RefCell<Vec<Vec<Tensor>>> = RefCell::new(vec![]);
    let over = Cell::new(false);
    let trainer = || {
        for step in 0..job.views.len() {
            // this step's data
            for (id, t) in &job.data[step] {
                keep(&durable, *id, t.clone());
                db.borrow().set(*id, t.clone());
            }
            for s in &slots {
                db.borrow().unset(*s);
            }
            let mut grads: Vec<Out> = vec![];
            let mut k = 0;
            let mut restarts = 0;
            while k < job.params.len() {
                if faults && chance(1, 24) && restarts < 2 {
                    // the process dies and starts again from the durable state; this step begins anew
                    count("restart.process");
                    restarts += 1;
                    ev(71, step as u64, k as u64, || "restart from the durable state".into());
                    *db.borrow_mut() = fresh(&durable.borrow());
                    grads.clear();
                    k = 0;
                }
                match gradient(job, &db, &slots, job.views[step][k], step, faults) {
                    Some(o) => grads.push(o),
                    None => {
                        over.set(true);
                        return;
                    },
                }
                k += 1;
            }
            // commit
            let mut now = vec![];
            for (p, o) in job.params.iter().zip(&grads) {
                let old = durable.borrow().iter().find(|x| x.0 == *p).unwrap().1.clone();
                let t = update(*p, &old, o, job.lr);
                keep(&durable, *p, t.clone());
                db.borrow().set(*p, t.clone());
                now.push(t);
            }
            ev(72, step as u64, now.iter().fold(0, |a, t| mix(a, t.hash())), || format!("step {} done: {:?}", step, now));
            out.borrow_mut().push(now);
        }
        over.set(true);
    };
    if faults && slots.is_empty() && chance(1, 2) {
        let watcher = || {
            for _ in 0..range(1, 6) {
                if over.get() || failed() {
                    return;
                }
                let view = job.loss.any_view(true);
                let mut p = Plan::default();
                p.cfg.preempt = 16;
                p.cfg.repr = chance(1, 2);
                let db = db.borrow().clone();
                let d = exec(&db, 1, &job.loss, view, p);
                if !judge(&db, &job.loss, view, &d, "watcher") {
                    return;
                }
                yield_now();
            }
        };
        run_tasks(4, vec![Box::new(trainer), Box::new(watcher)]);
    } else {
        trainer();
    }
    if failed() {
        return None;
    }
    Some(out.into_inner())
}

fn fresh(d: &[(Any, Tensor)]) -> Db {
    let db = Db::new(2);
    for (id, t) in d {
        db.set(*id, t.clone());
    }
    db
}

fn keep(d: &RefCell<Vec<(Any, Tensor)>>, id: Any, t: Tensor) {
    for x in d.borrow_mut().iter_mut() {
        if x.0 == id {
            x.1 = t;
            return;
        }
    }
}

/// One gradient, with retries.
fn gradient(job: &Job, db: &RefCell<Db>, slots: &[Any], view: View, step: usize, faults: bool) -> Option<Out> {
    let db = db.borrow().clone();
    for attempt in 0..4 {
        let storm = faults && attempt < 3;
        let mut p = if storm { plan(1) } else { Plan::default() };
        p.cfg.repr = false;
        let mut gone: Option<(Any, Tensor)> = None;
        if storm {
            if !crate::sim::in_task() {
                p.cfg.preempt = 0;
                p.yield_op = 0;
            }
            if !slots.is_empty() {
                p.cfg.lose = if chance(1, 3) { 24 } else { 0 };
                for s in slots {
                    if chance(1, 6) {
                        count("clear.memo");
                        db.unset(*s);
                    }
                }
            }
            if chance(1, 8) {
                let vars: Vec<Any> = job.init.iter().map(|x| x.0).collect();
                let v = vars[below(vars.len() as u32) as usize];
                if let Some(t) = db.get(v) {
                    count("missing.outage");
                    ev(33, v.n as u64, v.kind as u64, || format!("{:?} becomes unavailable", v));
                    db.unset(v);
                    gone = Some((v, t));
                }
            }
            if attempt > 0 {
                count("retry.call");
            }
        }
        let d = exec(&db, 0, &job.loss, view, p);
        fingerprint(mix(mix(step as u64, attempt), mix(view.code(), d.res_class())));
        let ok = judge(&db, &job.loss, view, &d, "gradient");
        if let Some((v, t)) = gone {
            db.set(v, t);
        }
        if !ok {
            return None;
        }
        match d.res {
            Called::Done(Ok(o)) => {
                nontrivial();
                return Some(o);
            },
            res if !storm => {
                fail(format!("[progress] {:?} of {:?} gives {:?} although everything is available", view, job.loss.ast, res));
                return None;
            },
            _ => {},
        }
    }
    None
}

/// Gradient (or guarded Newton) step, kept inside the variable's range.
fn update(p: Any, old: &Tensor, o: &Out, lr: f64) -> Tensor {
    let (lo, hi) = range_of(p);
    let (g, h): (&Tensor, Option<&Tensor>) = match o {
        Out::Val(g) => (g, None),
        Out::Spec(g, _, _) => (g, None),
        Out::Dual(v, g) if p.kind == Kind::S && v.data.len() == 1 && g.data.len() == 1 => (g, Some(v)),
        Out::Dual(_, g) => (g, None),
        _ => return old.clone(),
    };
    let mut t = old.clone();
    if g.data.is_empty() {
        return t;
    }
    // a vector loss is trained by its first row
    for (k, x) in t.data.iter_mut().enumerate() {
        let mut d = g.data[k % g.data.len()];
        if let Some(h) = h {
            d = d / (h.data[0].abs() + 1.0);
        }
        let y = *x - lr * d;
        if y.is_finite() {
            *x = y.max(lo).min(hi);
        }
    }
    t
}

/// The two call sites whose vector gradients are known to be wrong: the result must be either right or
/// wrong in exactly the recorded way.
fn known_sites() {
    let mut g = Gen::new(Opts { diff: true, dynamic: false, max_size: 12, ..Opts::default() });
    let t = IdA3(below(3) as u8);
    let dot = chance(1, 2);
    let e = if dot {
        let (x, y) = (g.gen_a3(2), g.gen_a3(2));
        match g.dot_any(&x, &y) {
            Some(b) => AnyBuilt::new(b),
            None => return,
        }
    } else {
        let (s, a) = (g.gen_s(2), g.gen_a3(2));
        match g.scaled_any(&s, &a) {
            Some(b) => AnyBuilt::new(b),
            None => return,
        }
    };
    if e.obj.levels().1 == 0 {
        return;
    }
    count("op.known_site");
    fingerprint(mix(e.ast.hash(), 5));
    let db = Db::new(1);
    let sizes = Sizes::draw(0);
    for v in with_targets(std::slice::from_ref(&e)) {
        set_var(&db, v, &sizes);
    }
    let view = pick(&[View::GradA(t), View::DualA(t), View::TreeA(t), View::TreeSpecA(t)]);
    let d = exec(&db, 0, &e, view, Plan::default());
    let get = |id: Any| db.get(id);
    let (x, y) = match &*e.ast {
        Ast::Con0(x, y) | Ast::Con1(x, y) => (x.clone(), y.clone()),
        _ => return,
    };
    let sub = |a: &Ast| (value_at(a, &get, true).val.unwrap(), grad_at(a, View::GradA(t), &get, &[3]).unwrap());
    let ((xv, xj), (yv, yj)) = (sub(&x), sub(&y));
    let n = 3;
    let mut wrong: Vec<E> = vec![];
    if dot {
        for k in 0..n {
            let mut acc = crate::refer::ex(0.0);
            for i in 0..n {
                acc = crate::refer::e_add(acc, crate::refer::e_mul(xj.data[k * n + i], yv.data[i]));
                acc = crate::refer::e_add(acc, crate::refer::e_mul(xv.data[i], yj.data[i * n + k]));
            }
            wrong.push(acc);
        }
    } else {
        for i in 0..n {
            for k in 0..n {
                let a = crate::refer::e_mul(xv.data[0], yj.data[i * n + k]);
                wrong.push(crate::refer::e_add(a, crate::refer::e_mul(xj.data[i], yv.data[k])));
            }
        }
    }
    let got = match d.ok() {
        Some(Out::Val(g)) | Some(Out::Spec(g, _, _)) | Some(Out::Dual(_, g)) => g.clone(),
        _ => return fail(format!("[gradient] {:?} of {:?} gives {:?}", view, e.ast, d.res)),
    };
    let right = grad_at(&e.ast, view, &get, &[3]).unwrap();
    let wrong = TN { dims: right.dims.clone(), data: wrong };
    let a = differs(&got, &right, Tol::First);
    let b = differs(&got, &wrong, Tol::First);
    match (a, b) {
        (None, _) => nontrivial(),
        (Some(_), None) => {
            nontrivial();
            count("op.known_defect_seen");
        },
        (Some(m), Some(k)) => fail(format!("[gradient] {:?} of {:?}: {}; nor is it the known wrong one: {}", view, e.ast, m, k)),
    }
}
