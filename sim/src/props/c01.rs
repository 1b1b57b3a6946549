//! C01: an evaluation is the formula at the values the context gave during it.
use crate::{
    build::{AnyBuilt, Gen, Opts, Out, View},
    exact, extreme,
    orch::Prop,
    sim::{below, chance, count, fail, failed, fingerprint, mix, nontrivial, range, run_tasks, sample, yield_now},
    store::Db,
    world::*,
};
use std::cell::Cell;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        run,
        rule: "the operator trees, the sequence of (client, view, outcome class) and of store changes",
        real: "every operator, constants, variables, memo nodes, buffers and structured forms of /repo/aegir, run unmodified from the working tree",
        stub: "the context (simulated store), the number type (f64 with an injection point per operation), the clients",
        quick: 1_500_000,
        thorough: 30_000_000,
        batch: 2000,
    }
}

fn run() {
    if chance(1, 24) {
        return match below(8) {
            0..=2 => extreme::value::<crate::store::F>(),
            3 => extreme::value::<crate::build::A3>(),
            4 => extreme::value::<crate::build::M22>(),
            5 => extreme::value::<crate::build::V>(),
            6 => extreme::value::<crate::build::T>(),
            _ => extreme::power_value(),
        };
    }
    if chance(1, 24) {
        return exact::run();
    }
    if chance(1, 400) {
        return marathon();
    }
    let nexp = range(1, 3) as usize;
    let mut es: Vec<AnyBuilt> = vec![];
    let mut g = Gen::new(Opts { cache: if chance(1, 4) { 6 } else { 0 }, spec: chance(1, 2), ..Opts::default() });
    for _ in 0..nexp {
        g.size = 0;
        let d = range(1, 4) as u32;
        let e = g.gen_any(d);
        fingerprint(e.ast.hash());
        es.push(e);
    }
    sample(|| format!("{:?}", es.iter().map(|e| &e.ast).collect::<Vec<_>>()));
    let clients = range(1, 3) as usize;
    let db = Db::new(clients + 1);
    let sizes = Sizes::draw(4);
    let vars: Vec<_> = all_vars(&es).into_iter().collect();
    for v in &vars {
        set_var(&db, *v, &sizes);
    }
    let interesting = Cell::new(0u32);
    let faults = below(4);
    if chance(1, 24) {
        count("update.restless");
        db.with(|s| s.restless = vars.clone());
    }
    {
        let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
        for cl in 0..clients {
            let (db, es, vars, sizes, interesting) = (&db, &es, &vars, &sizes, &interesting);
            tasks.push(Box::new(move || {
                let n = range(1, 6);
                for _ in 0..n {
                    if failed() {
                        return;
                    }
                    let e = &es[below(es.len() as u32) as usize];
                    // several calls may be made on the same object without anything in between
                    if clients == 1 && chance(1, 2) {
                        mutate(db, vars, sizes);
                    }
                    let view = match below(6) {
                        0..=2 => View::Value,
                        3 | 4 => View::Spec,
                        _ => e.any_view(true),
                    };
                    let p = plan(if faults == 0 { 0 } else { 1 });
                    let d = exec(db, cl, e, view, p);
                    fingerprint(mix(view.code(), mix(cl as u64, d.res_class())));
                    if d.res_class() != 0 || p.cfg.preempt > 0 || p.yield_op > 0 {
                        interesting.set(interesting.get() + 1);
                    }
                    if !judge(db, e, view, &d, "value") {
                        return;
                    }
                    yield_now();
                }
            }));
        }
        if clients > 1 {
            let (db, vars, sizes, interesting) = (&db, &vars, &sizes, &interesting);
            tasks.push(Box::new(move || {
                for _ in 0..range(1, 12) {
                    mutate(db, vars, sizes);
                    interesting.set(interesting.get() + 1);
                    yield_now();
                }
            }));
        }
        run_tasks(4, tasks);
    }
    if failed() {
        return;
    }
    // Quiet phase: everything available and of one size, no faults; memo slots emptied.
    db.with(|s| s.restless = vec![]);
    let quiet = Sizes { odd: 0, ..sizes };
    for v in &vars {
        set_var(&db, *v, &quiet);
    }
    for s in all_slots(&es) {
        db.unset(s);
    }
    for e in &es {
        for view in [View::Value, View::Spec] {
            let d = exec(&db, 0, e, view, Plan::default());
            if !judge(&db, e, view, &d, "quiet") {
                return;
            }
            if d.ok().is_none() {
                return fail(format!("[progress] {:?} of {:?} still fails after all faults stopped: {:?}", view, e.ast, d.err()));
            }
            if let Some(Out::Val(_)) = d.ok() {
                count("progress.checked");
            }
        }
    }
    if interesting.get() > 0 {
        nontrivial();
    }
}

/// One object evaluated some hundreds of times over changing values: nothing may wear out.
fn marathon() {
    count("op.marathon");
    let mut g = Gen::new(Opts { cache: if chance(1, 4) { 6 } else { 0 }, max_size: 6, ..Opts::default() });
    let e = g.gen_any(range(1, 3) as u32);
    fingerprint(e.ast.hash());
    sample(|| format!("{:?}, many times", e.ast));
    let db = Db::new(1);
    let sizes = Sizes::draw(8);
    let es = [e.clone()];
    let vars: Vec<_> = all_vars(&es).into_iter().collect();
    for v in &vars {
        set_var(&db, *v, &sizes);
    }
    for k in 0..range(250, 600) {
        if k % 4 == 0 && chance(1, 4) {
            mutate(&db, &vars, &sizes);
        }
        let view = match below(8) {
            0..=4 => View::Value,
            5 | 6 => View::Spec,
            _ => e.any_view(true),
        };
        let d = exec(&db, 0, &e, view, Plan::default());
        if !judge(&db, &e, view, &d, "marathon") {
            return;
        }
    }
    nontrivial();
}

fn mutate(db: &Db, vars: &[crate::store::Any], sizes: &Sizes) {
    if vars.is_empty() {
        return;
    }
    let id = vars[below(vars.len() as u32) as usize];
    if chance(1, 5) {
        count("missing.outage");
        crate::sim::ev(33, id.n as u64, id.kind as u64, || format!("{:?} becomes unavailable", id));
        db.unset(id);
    } else {
        count("update.value");
        set_var(db, id, sizes);
    }
}
