//! C04: an evaluation cut short at any instant damages nothing.
use crate::{
    alloc,
    build::{AnyBuilt, Gen, Opts, Out, Res},
    orch::Prop,
    refer::close,
    sim::{self, below, chance, count, fail, failed, fingerprint, mix, nontrivial, range, sample, Called},
    store::{Access, Any, Db, Tensor},
    world::*,
};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        run,
        rule: "the operator tree, view, crash points and the memo slots filled before",
        real: "every operator, gradient expressions, memo nodes and buffers of /repo/aegir, including their clean-up while unwinding",
        stub: "the context (simulated store), the number type (crashes inside its operations), the allocator (counts blocks)",
        quick: 1_000_000,
        thorough: 35_000_000,
        batch: 500,
    }
}

type Vals = BTreeMap<Any, Tensor>;

fn put_back(db: &Db, v: &Vals) {
    db.with(|s| {
        let keys: Vec<Any> = s.vals.keys().cloned().collect();
        for k in keys {
            if !v.contains_key(&k) {
                s.set(k, None);
            }
        }
        for (k, t) in v {
            if !s.vals.get(k).is_some_and(|x| x.same_bits(t)) {
                s.set(*k, Some(t.clone()));
            }
        }
    })
}

fn same(a: &Res, b: &Res, exact: bool) -> bool {
    let t = |x: &Tensor, y: &Tensor| if exact { x.same_bits(y) || nan_eq(x, y) } else { close(x, y, 1e-9, 1e-9) };
    match (a, b) {
        (Ok(Out::Val(x)), Ok(Out::Val(y))) => t(x, y),
        (Ok(Out::Spec(_, x, _)), Ok(Out::Spec(_, y, _))) => t(x, y),
        (Ok(Out::Shape(x)), Ok(Out::Shape(y))) => x == y,
        (Ok(Out::Dual(x, p)), Ok(Out::Dual(y, q))) => t(x, y) && t(p, q),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

fn nan_eq(x: &Tensor, y: &Tensor) -> bool {
    x.dims == y.dims && x.data.iter().zip(&y.data).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
}

fn run() {
    let diff = chance(1, 3);
    let mut g = Gen::new(Opts { cache: if chance(1, 2) { 12 } else { 0 }, spec: chance(1, 3), diff, max_size: 18, ..Opts::default() });
    let d = range(1, 4) as u32;
    let e: AnyBuilt = if diff && chance(1, 2) { AnyBuilt::new(g.gen_s(d)) } else { g.gen_any(d) };
    fingerprint(e.ast.hash());
    sample(|| format!("{:?}", e.ast));
    let db = Db::new(1);
    let sizes = Sizes::draw(0);
    for v in e.ast.vars() {
        if !chance(1, 40) {
            set_var(&db, v, &sizes);
        }
    }
    let view = e.any_view(true);
    fingerprint(view.code());
    // some slots are filled already, with the value of their sub-expression
    for s in e.ast.slots() {
        if chance(1, 3) {
            fill_slot(&db, &e, s);
        }
    }
    let before: Vals = db.with(|s| s.vals.clone());
    // how it goes undisturbed
    let whole = exec(&db, 0, &e, view, Plan::default());
    if !judge(&db, &e, view, &whole, "whole") {
        return;
    }
    let res0 = match &whole.res {
        Called::Done(r) => r.clone(),
        _ => return,
    };
    let after: Vals = db.with(|s| s.vals.clone());
    let n_acc = whole.accesses;
    put_back(&db, &before);
    let o0 = sim::ops();
    exec(&db, 0, &e, view, Plan::default());
    let n_ops = sim::ops() - o0;
    let tries = range(1, 6);
    for _ in 0..tries {
        if failed() {
            return;
        }
        put_back(&db, &before);
        let mut p = Plan::default();
        let at_access = n_ops == 0 || (n_acc > 0 && chance(1, 2));
        if at_access {
            if n_acc == 0 {
                return;
            }
            p.cfg.crash_at = 1 + below(n_acc);
        } else {
            p.crash_op = 1 + below(n_ops.min(5000) as u32) as u64;
        }
        fingerprint(mix(p.cfg.crash_at as u64, p.crash_op));
        let a0 = alloc::stats();
        let cut = exec(&db, 0, &e, view, p);
        let crashed = matches!(cut.res, Called::Crashed);
        let (res, log) = (cut.res, cut.log);
        drop(res);
        let a1 = alloc::stats();
        let cut = Done { res: Called::Crashed, log, ..cut };
        if crashed && !judge(&db, &e, view, &cut, "cut") {
            return;
        }
        let log = cut.log;
        if !crashed {
            return fail(format!("[instant] {:?} of {:?} did not pass through access {} / operation {} again", view, e.ast, p.cfg.crash_at, p.crash_op));
        }
        nontrivial();
        if a1.2 != a0.2 {
            return fail(format!("[double-drop] {:?} of {:?} cut at access {} / operation {}: {} bad frees", view, e.ast, p.cfg.crash_at, p.crash_op, a1.2 - a0.2));
        }
        let wrote: BTreeMap<Any, Tensor> = log
            .iter()
            .filter_map(|a| match a {
                Access::Write { id, val, .. } => Some((*id, val.clone())),
                _ => None,
            })
            .collect();
        let leaked = (a1.0 - a0.0, a1.1 - a0.1);
        if leaked != (0, 0) {
            return fail(format!("[leak] {:?} of {:?} cut at access {} / operation {} leaks {:?} (blocks, bytes)", view, e.ast, p.cfg.crash_at, p.crash_op, leaked));
        }
        // variables intact, memos old or complete
        let now: Vals = db.with(|s| s.vals.clone());
        for (k, t) in &before {
            if !now.get(k).is_some_and(|x| x.same_bits(t)) {
                return fail(format!("[intact] {:?} of {:?} cut short changed {:?} from {:?} to {:?}", view, e.ast, k, t, now.get(k)));
            }
        }
        for (k, t) in &now {
            if before.contains_key(k) {
                continue;
            }
            match after.get(k) {
                Some(w) if w.same_bits(t) || nan_eq(w, t) => {},
                w => {
                    return fail(format!(
                        "[memo] {:?} of {:?} cut short left {:?} in memo slot {:?}; undisturbed it gets {:?}",
                        view, e.ast, t, k, w
                    ))
                },
            }
        }
        // possibly cut again, then retried
        if chance(1, 3) {
            let mut q = Plan::default();
            q.cfg.crash_at = range(1, 4) as u32;
            let d = exec(&db, 0, &e, view, q);
            if !judge(&db, &e, view, &d, "again") {
                return;
            }
        }
        count("retry.call");
        let again = exec(&db, 0, &e, view, Plan::default());
        if !judge(&db, &e, view, &again, "retry") {
            return;
        }
        match &again.res {
            Called::Done(r) if same(r, &res0, wrote.is_empty()) => {},
            r => {
                return fail(format!(
                    "[retry] {:?} of {:?} gave {:?} after being cut at access {} / operation {}, but {:?} undisturbed",
                    view, e.ast, r, p.cfg.crash_at, p.crash_op, res0
                ))
            },
        }
        // the store after the retry is the one an undisturbed call leaves
        let end: Vals = db.with(|s| s.vals.clone());
        for (k, t) in &end {
            if !after.get(k).is_some_and(|w| w.same_bits(t) || close(w, t, 1e-9, 1e-9)) {
                return fail(format!("[store] after the retry {:?} holds {:?}, undisturbed {:?} ({:?} of {:?})", k, t, after.get(k), view, e.ast));
            }
        }
        if end.len() != after.len() {
            return fail(format!("[store] after the retry {} entries, undisturbed {} ({:?} of {:?})", end.len(), after.len(), view, e.ast));
        }
    }
}

pub fn fill_slot(db: &Db, e: &AnyBuilt, s: Any) {
    let get = |id: Any| db.get(id);
    let mut v = None;
    e.ast.walk(&mut |n| {
        if let crate::ast::Ast::Cache(i, x) = n {
            if *i == s && v.is_none() {
                v = crate::refer::value_at(x, &get, true).val;
            }
        }
    });
    if let Some(t) = v {
        if t.data.iter().all(|x| x.v.is_finite()) {
            db.set(s, Tensor { dims: t.dims, data: t.data.iter().map(|x| x.v).collect() });
        }
    }
}
