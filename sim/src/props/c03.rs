//! C03: a memoised subexpression is computed once and stored exactly, nothing else moves.
use crate::{
    ast::Ast,
    build::{AnyBuilt, Gen, Opts, Out, View},
    orch::Prop,
    refer::value_at,
    sim::{below, chance, count, ev, fail, failed, fingerprint, mix, nontrivial, range, run_tasks, sample, yield_now, Called},
    store::{Access, Any, Db, Tensor},
    world::*,
};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        run,
        rule: "the operator trees with their memos, which slots were filled when, and the sequence of (client, view, outcome class)",
        real: "memo nodes and every operator around and inside them, of /repo/aegir",
        stub: "the context (simulated store with lost, cleared and foreign memo entries), the number type, the clients",
        quick: 1_200_000,
        thorough: 30_000_000,
        batch: 2000,
    }
}

fn run() {
    let mut g = Gen::new(Opts { cache: 24, spec: chance(1, 3), diff: chance(1, 4), max_size: 16, ..Opts::default() });
    let mut es: Vec<AnyBuilt> = vec![];
    for _ in 0..range(1, 2) {
        g.size = 0;
        let d = range(1, 3) as u32;
        macro_rules! rooted {
            ($f:ident) => {{
                let b = g.$f(d);
                let b = g.cache(&b);
                AnyBuilt::new(b)
            }};
        }
        es.push(if chance(1, 2) {
            g.gen_any(d)
        } else {
            match below(8) {
                0 | 1 => rooted!(gen_s),
                2 => rooted!(gen_a3),
                3 => rooted!(gen_m22),
                4 => rooted!(gen_v),
                5 => rooted!(gen_g),
                6 => rooted!(gen_t),
                _ => rooted!(gen_m33),
            }
        });
    }
    for e in &es {
        fingerprint(e.ast.hash());
    }
    sample(|| format!("{:?}", es.iter().map(|e| &e.ast).collect::<Vec<_>>()));
    let db = Db::new(3);
    let sizes = Sizes::draw(0);
    let vars: Vec<Any> = all_vars(&es).into_iter().collect();
    for v in &vars {
        set_var(&db, *v, &sizes);
    }
    let slots: Vec<Any> = all_slots(&es).into_iter().collect();
    if slots.is_empty() {
        return;
    }
    nontrivial();
    let concurrent = chance(1, 4);
    let env = |k: u32| {
        let s = slots[below(slots.len() as u32) as usize];
        match k {
            0 => {
                count("clear.memo");
                ev(40, s.n as u64, s.kind as u64, || format!("memo slot {:?} cleared", s));
                db.unset(s);
            },
            1 => {
                // an entry somebody else put there, not the value of the sub-expression
                let range = g.slots[&s];
                let t = draw_value(s, range, &sizes);
                count("conflict.memo");
                ev(41, s.n as u64 | (s.kind as u64) << 8, t.hash(), || format!("memo slot {:?} filled by somebody else with {:?}", s, t));
                db.set(s, t);
            },
            2 => {
                if !vars.is_empty() {
                    let v = vars[below(vars.len() as u32) as usize];
                    if chance(1, 4) {
                        count("missing.outage");
                        ev(33, v.n as u64, v.kind as u64, || format!("{:?} becomes unavailable", v));
                        db.unset(v);
                    } else {
                        count("update.value");
                        set_var(&db, v, &sizes);
                    }
                }
            },
            _ => {},
        }
    };
    if concurrent {
        let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
        for cl in 0..2usize {
            let (db, es) = (&db, &es);
            tasks.push(Box::new(move || {
                for _ in 0..range(1, 4) {
                    if failed() {
                        return;
                    }
                    let e = &es[below(es.len() as u32) as usize];
                    let view = pick_view(e);
                    let mut p = plan(1);
                    p.cfg.lose = if chance(1, 4) { 16 } else { 0 };
                    let d = exec(db, cl, e, view, p);
                    fingerprint(mix(view.code(), mix(cl as u64, d.res_class())));
                    if !judge(db, e, view, &d, "memo") || !memo_checks(e, view, &d) {
                        return;
                    }
                    yield_now();
                }
            }));
        }
        let env = &env;
        tasks.push(Box::new(move || {
            for _ in 0..range(1, 10) {
                env(below(3));
                yield_now();
            }
        }));
        run_tasks(4, tasks);
    } else {
        for _ in 0..range(2, 8) {
            if failed() {
                return;
            }
            for _ in 0..range(0, 2) {
                env(below(4));
            }
            let e = &es[below(es.len() as u32) as usize];
            let view = pick_view(e);
            let mut p = Plan::default();
            p.cfg.repr = chance(1, 2);
            match below(6) {
                1 => p.cfg.crash_at = range(1, 10) as u32,
                2 => p.crash_op = range(1, 40) as u64,
                3 => p.cfg.lose = 24,
                4 => p.cfg.hide = 4,
                _ => {},
            }
            let before: BTreeMap<Any, Tensor> = db.with(|s| s.vals.clone());
            let d = exec(&db, 0, e, view, p);
            fingerprint(mix(view.code(), d.res_class()));
            if !judge(&db, e, view, &d, "memo") || !memo_checks(e, view, &d) {
                return;
            }
            // nothing but the slots that were seen empty and written moved
            let after: BTreeMap<Any, Tensor> = db.with(|s| s.vals.clone());
            let wrote: BTreeMap<Any, Tensor> = d
                .log
                .iter()
                .filter_map(|a| match a {
                    Access::Write { id, val, lost: false } => Some((*id, val.clone())),
                    _ => None,
                })
                .collect();
            let mut want = before.clone();
            want.extend(wrote);
            if want.len() != after.len() || want.iter().any(|(k, v)| !after.get(k).is_some_and(|w| w.same_bits(v))) {
                return fail(format!("[moved] {:?} of {:?} changed the store from {:?} to {:?}", view, e.ast, before, after));
            }
        }
    }
    if failed() {
        return;
    }
    // Everything cleared: the next evaluation computes the current value, stores it, and the one after
    // that returns the same bits without touching the variables.
    for v in &vars {
        set_var(&db, *v, &sizes);
    }
    for s in &slots {
        db.unset(*s);
    }
    for e in &es {
        for round in 0..2 {
            let d = exec(&db, 0, e, View::Value, Plan::default());
            if !judge(&db, e, View::Value, &d, "quiet") || !memo_checks(e, View::Value, &d) {
                return;
            }
            let got = match d.ok() {
                Some(Out::Val(t)) => t.clone(),
                _ => return fail(format!("[progress] {:?} still fails after the faults stopped: {:?}", e.ast, d.res)),
            };
            for s in e.ast.slots() {
                // memos nested in another filled memo need not be filled
                if round == 0 && db.get(s).is_none() {
                    return fail(format!("[stored] after evaluating {:?} the memo slot {:?} is still empty", e.ast, s));
                }
            }
            let get = |id: Any| db.get(id);
            if let Some(v) = value_at(&e.ast, &get, true).val {
                if let Some(m) = crate::refer::differs(&got, &v, crate::refer::Tol::Value) {
                    return fail(format!("[current] {:?}: {}", e.ast, m));
                }
            }
        }
    }
}

fn pick_view(e: &AnyBuilt) -> View {
    match below(8) {
        0..=3 => View::Value,
        4 | 5 => View::Spec,
        6 => View::Shape,
        _ => e.any_view(true),
    }
}

/// The exact parts of the memo contract, for one call.
fn memo_checks(e: &AnyBuilt, view: View, d: &Done) -> bool {
    let plain = matches!(view, View::Value | View::Spec);
    let slot_reads = |s: Any| -> Vec<Option<Tensor>> {
        d.log
            .iter()
            .filter_map(|a| match a {
                Access::Read { id, got, .. } if *id == s => Some(got.clone()),
                _ => None,
            })
            .collect()
    };
    let writes = |s: Any| -> Vec<Tensor> {
        d.log
            .iter()
            .filter_map(|a| match a {
                Access::Write { id, val, .. } if *id == s => Some(val.clone()),
                _ => None,
            })
            .collect()
    };
    for s in e.ast.slots() {
        let r = slot_reads(s);
        let empties = r.iter().filter(|x| x.is_none()).count();
        let w = writes(s);
        if w.len() > empties {
            fail(format!("[once] {:?} of {:?}: slot {:?} seen empty {} time(s) but written {} times", view, e.ast, s, empties, w.len()));
            return false;
        }
        // seen empty in a call that succeeded: stored, too
        if plain && d.ok().is_some() && w.len() < empties {
            fail(format!("[stored] {:?} of {:?}: slot {:?} seen empty {} time(s), stored {} times", view, e.ast, s, empties, w.len()));
            return false;
        }
    }
    // Identifiers that occur only beneath slots that were always filled are not touched.
    if plain {
        let mut live = BTreeSet::new();
        reach(&e.ast, &|s| slot_reads(s).iter().any(|x| x.is_none()) || slot_reads(s).is_empty(), &mut live);
        for a in &d.log {
            if let Access::Read { id, .. } = a {
                if !live.contains(id) {
                    fail(format!("[evaluated] {:?} of {:?} read {:?}, which only occurs beneath filled memo slots", view, e.ast, id));
                    return false;
                }
            }
        }
    }
    // Result and entry of a memo at the root are the same bits.
    if let (Ast::Cache(s, _), true, Called::Done(Ok(o))) = (&*e.ast, plain, &d.res) {
        let got = match o {
            Out::Val(t) => t,
            Out::Spec(_, t, _) => t,
            _ => return true,
        };
        let r = slot_reads(*s);
        if let Some(Some(first)) = r.first() {
            if r.len() == 1 && !got.same_bits(first) {
                fail(format!("[exact] {:?} of {:?} gave {:?}, the memo held {:?}", view, e.ast, got, first));
                return false;
            }
        }
        if let Some(w) = writes(*s).last() {
            if !w.same_bits(got) {
                fail(format!("[exact] {:?} of {:?} gave {:?} but stored {:?}", view, e.ast, got, w));
                return false;
            }
        }
    }
    true
}

fn reach(a: &Ast, open: &dyn Fn(Any) -> bool, out: &mut BTreeSet<Any>) {
    match a {
        Ast::Var(i) => {
            out.insert(*i);
        },
        Ast::Cache(i, x) => {
            out.insert(*i);
            if open(*i) {
                reach(x, open, out);
            }
        },
        _ => a.children().iter().for_each(|c| reach(c, open, out)),
    }
}
