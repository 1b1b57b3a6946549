//! C02: missing variables are reported by name and side, and only while they are missing.
use crate::{
    build::{AnyBuilt, Gen, Opts, Out, View},
    node::EKind,
    orch::Prop,
    sim::{below, chance, count, ev, fail, failed, fingerprint, mix, nontrivial, range, run_tasks, sample, yield_now, Called},
    store::{Any, Db},
    world::*,
};
use std::cell::Cell;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        run,
        rule: "the operator trees, the sets of unavailable variables and the sequence of (client, view, outcome class)",
        real: "every operator, constants, variables, memo nodes, gradient expressions, errors of /repo/aegir",
        stub: "the context (simulated store with outages), the number type, the clients",
        quick: 1_500_000,
        thorough: 40_000_000,
        batch: 2000,
    }
}

fn run() {
    let diff = chance(1, 3);
    let mut g = Gen::new(Opts { cache: if chance(1, 5) { 6 } else { 0 }, spec: chance(1, 3), diff, ..Opts::default() });
    let mut es: Vec<AnyBuilt> = vec![];
    for _ in 0..range(1, 2) {
        g.size = 0;
        let d = range(1, 4) as u32;
        es.push(if diff && chance(1, 2) { AnyBuilt::new(g.gen_s(d)) } else { g.gen_any(d) });
    }
    for e in &es {
        fingerprint(e.ast.hash());
    }
    sample(|| format!("{:?}", es.iter().map(|e| &e.ast).collect::<Vec<_>>()));
    let concurrent = chance(1, 3);
    let db = Db::new(3);
    let sizes = Sizes::draw(0);
    let vars: Vec<Any> = with_targets(&es);
    let slots: Vec<Any> = all_slots(&es).into_iter().collect();
    // an expression may also be asked while nothing at all is there
    let empty_start = chance(1, 8);
    for v in &vars {
        if !empty_start {
            set_var(&db, *v, &sizes);
        }
    }
    if concurrent {
        let interesting = Cell::new(0u32);
        {
            let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
            for cl in 0..2usize {
                let (db, es, interesting) = (&db, &es, &interesting);
                tasks.push(Box::new(move || {
                    for _ in 0..range(1, 5) {
                        if failed() {
                            return;
                        }
                        let e = &es[below(es.len() as u32) as usize];
                        let view = e.any_view(true);
                        let mut p = Plan::default();
                        p.cfg.preempt = 24;
                        p.cfg.repr = chance(1, 2);
                        p.cfg.hide = if chance(1, 3) { 3 } else { 0 };
                        let d = exec(db, cl, e, view, p);
                        fingerprint(mix(view.code(), mix(cl as u64, d.res_class())));
                        if d.res_class() == 1 {
                            interesting.set(1);
                        }
                        if !judge(db, e, view, &d, "missing") {
                            return;
                        }
                        yield_now();
                    }
                }));
            }
            let (db, vars, sizes) = (&db, &vars, &sizes);
            tasks.push(Box::new(move || {
                for _ in 0..range(2, 14) {
                    if vars.is_empty() {
                        return;
                    }
                    let id = vars[below(vars.len() as u32) as usize];
                    toggle(db, id, sizes);
                    yield_now();
                }
            }));
            run_tasks(4, tasks);
        }
        if interesting.get() > 0 {
            nontrivial();
        }
    } else {
        for _ in 0..range(2, 8) {
            if failed() {
                return;
            }
            // some variables go, some come back
            for _ in 0..range(0, 2) {
                if !vars.is_empty() {
                    toggle(&db, vars[below(vars.len() as u32) as usize], &sizes);
                }
            }
            for s in &slots {
                if chance(1, 4) {
                    count("clear.memo");
                    db.unset(*s);
                }
            }
            let e = &es[below(es.len() as u32) as usize];
            let view = e.any_view(true);
            let mut p = Plan::default();
            p.cfg.repr = chance(1, 2);
            let before: Vec<_> = slots.iter().map(|s| db.get(*s)).collect();
            let d = exec(&db, 0, e, view, p);
            fingerprint(mix(view.code(), d.res_class()));
            if !judge(&db, e, view, &d, "missing") {
                return;
            }
            let gone: Vec<Any> = vars.iter().cloned().filter(|v| db.get(*v).is_none()).collect();
            if let Called::Done(Err(err)) = &d.res {
                nontrivial();
                // the whole call saw one state: the variable named is not in it
                match &err.kind {
                    EKind::Missing(id) if gone.contains(id) => {},
                    EKind::Missing(id) => {
                        return fail(format!("[named] {:?} of {:?} names {:?}, which is available; unavailable: {:?}", view, e.ast, id, gone))
                    },
                    k => return fail(format!("[kind] {:?} of {:?} failed with {:?}; unavailable: {:?}", view, e.ast, k, gone)),
                }
                // back again: the very next call on the same expression succeeds
                if chance(1, 2) {
                    for id in &gone {
                        set_var(&db, *id, &sizes);
                    }
                    for s in &slots {
                        db.unset(*s);
                    }
                    count("retry.call");
                    let d = exec(&db, 0, e, view, p);
                    if !judge(&db, e, view, &d, "back") {
                        return;
                    }
                    if d.ok().is_none() {
                        return fail(format!("[back] {:?} of {:?} still fails although everything is available: {:?}", view, e.ast, d.err()));
                    }
                }
            } else if gone.is_empty() {
                if d.ok().is_none() {
                    return fail(format!("[available] {:?} of {:?} ended with {:?} although everything is available", view, e.ast, d.res));
                }
            } else if matches!(view, View::Value | View::Spec | View::DualS(_) | View::DualA(_) | View::Jac(crate::jac::JHow::Dual, _)) {
                // a value although something is gone: only a memo can have supplied it
                let used = e.ast.vars().iter().any(|v| gone.contains(v));
                let memo = slots.iter().zip(&before).any(|(s, b)| b.is_some() && e.ast.slots().contains(s));
                if used && !memo {
                    if let Some(Out::Val(_)) | Some(Out::Spec(..)) | Some(Out::Dual(..)) = d.ok() {
                        return fail(format!("[value] {:?} of {:?} gave {:?} although {:?} were unavailable", view, e.ast, d.res, gone));
                    }
                }
            }
        }
    }
    if failed() {
        return;
    }
    // faults stop
    for v in &vars {
        set_var(&db, *v, &sizes);
    }
    for s in &slots {
        db.unset(*s);
    }
    for e in &es {
        let view = e.any_view(true);
        let d = exec(&db, 0, e, view, Plan::default());
        if !judge(&db, e, view, &d, "quiet") {
            return;
        }
        if d.ok().is_none() {
            return fail(format!("[progress] {:?} of {:?} still fails after the outages: {:?}", view, e.ast, d.err()));
        }
    }
}

fn toggle(db: &Db, id: Any, sizes: &Sizes) {
    if db.get(id).is_some() {
        count("missing.outage");
        ev(33, id.n as u64, id.kind as u64, || format!("{:?} becomes unavailable", id));
        db.unset(id);
    } else {
        set_var(db, id, sizes);
    }
}
