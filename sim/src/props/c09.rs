//! C09: an expression that says it does not contain a variable is independent of it.
use crate::{
    jac::JHow,
    build::{range_of, AnyBuilt, Gen, Opts, Out, View},
    orch::Prop,
    sim::{below, chance, count, ev, fail, failed, fingerprint, mix, nontrivial, range, run_tasks, sample, yield_now, Called},
    store::{Any, Db, Kind, Tensor},
    world::*,
};
use std::cell::Cell;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        run,
        rule: "the operator trees, the views, the identifiers asked about and what was done to them",
        real: "contains of every operator, source, memo and gradient expression, and their evaluation, of /repo/aegir",
        stub: "the context (simulated store), the number type, the clients",
        quick: 4_000_000,
        thorough: 80_000_000,
        batch: 2000,
    }
}

const KINDS: [Kind; 12] =
    [Kind::S, Kind::A2, Kind::A3, Kind::V, Kind::T, Kind::M22, Kind::M23, Kind::M32, Kind::M33, Kind::R3, Kind::G, Kind::D];

fn run() {
    if chance(1, 16) {
        return crate::userland::contains();
    }
    let cache = if chance(1, 3) { 8 } else { 0 };
    let diff = chance(1, 2);
    let mut g = Gen::new(Opts { cache, diff, spec: chance(1, 4), max_size: 18, ..Opts::default() });
    let d = range(1, 4) as u32;
    let e = match below(4) {
        0 => AnyBuilt::new(g.gen_s(d)),
        1 => AnyBuilt::new(g.gen_a3(d)),
        _ => g.gen_any(d),
    };
    fingerprint(e.ast.hash());
    sample(|| format!("{:?}", e.ast));
    let db = Db::new(2);
    let sizes = Sizes::draw(0);
    let vars: Vec<Any> = with_targets(std::slice::from_ref(&e));
    let slots: Vec<Any> = e.ast.slots().into_iter().collect();
    // ids that occur, ids that might, and ids that do not
    let mut ids: Vec<Any> = vars.clone();
    ids.extend(&slots);
    let k = KINDS[below(11) as usize];
    ids.push(Any { kind: k, n: below(4) as u8 });
    ids.push(Any { kind: e.obj.kind(), n: below(3) as u8 });
    for v in &vars {
        set_var(&db, *v, &sizes);
    }
    for _ in 0..range(1, 5) {
        if failed() {
            return;
        }
        let view = e.any_view(true);
        let id = ids[below(ids.len() as u32) as usize];
        // a dual is the value as well as its gradient
        let says = e.obj.grad_contains(view, id)
            || match view {
                View::DualS(_) | View::DualA(_) | View::Jac(JHow::Dual, _) => e.obj.contains(id),
                View::HessDual(t, _) => e.obj.grad_contains(View::GradS(t), id),
                _ => false,
            };
        ev(80, id.n as u64 | (id.kind as u64) << 8, says as u64, || format!("{:?} of {:?} says contains({:?}) = {}", view, e.ast, id, says));
        fingerprint(mix(mix(view.code(), id.n as u64 | (id.kind as u64) << 8), says as u64));
        // memo slots: empty or filled with the right value
        if chance(1, 2) {
            for s in &slots {
                db.unset(*s);
            }
        }
        let memo: Vec<(Any, Option<Tensor>)> = slots.iter().map(|s| (*s, db.get(*s))).collect();
        if says {
            if !id.is_slot() && !matches!(view, View::Shape | View::TreeShapeS(_) | View::TreeShapeA(_) | View::Jac(JHow::TreeShape, _)) {
                dependent(&db, &e, view, id);
            }
        } else {
            independent(&db, &e, view, id, &memo, &sizes);
        }
        // everything back
        for v in &vars {
            if db.get(*v).is_none() {
                set_var(&db, *v, &sizes);
            }
        }
        if chance(1, 3) && !vars.is_empty() {
            count("update.value");
            set_var(&db, vars[below(vars.len() as u32) as usize], &sizes);
        }
        for s in &slots {
            db.unset(*s);
        }
    }
}

/// It says it contains `id`: then there is no value without it.
fn dependent(db: &Db, e: &AnyBuilt, view: View, id: Any) {
    for s in e.ast.slots() {
        db.unset(s);
    }
    count("missing.outage");
    ev(33, id.n as u64, id.kind as u64, || format!("{:?} becomes unavailable", id));
    db.unset(id);
    nontrivial();
    let d = exec(db, 0, e, view, Plan::default());
    if let Called::Panicked(m) = &d.res {
        return fail(format!("[panic] {:?} of {:?} panicked: {}", view, e.ast, m));
    }
    if let Some(o) = d.ok() {
        fail(format!("[contains] {:?} of {:?} says it contains {:?}, yet without it the result is {:?}", view, e.ast, id, o));
    }
    // the empty-handed call must not leave anything behind
    for s in e.ast.slots() {
        db.unset(s);
    }
}

/// It says it does not contain `id`: then nothing that happens to it matters.
fn independent(db: &Db, e: &AnyBuilt, view: View, id: Any, memo: &[(Any, Option<Tensor>)], sizes: &Sizes) {
    let restore = || {
        for (s, t) in memo {
            match t {
                Some(t) => db.set(*s, t.clone()),
                None => db.unset(*s),
            }
        }
    };
    let before = exec(db, 0, e, view, Plan::default());
    let wild = |id: Any| {
        // any value, any size, far out of range, or nothing at all
        let s = Sizes { odd: 32, ..*sizes };
        match below(4) {
            0 => {
                count("missing.outage");
                ev(33, id.n as u64, id.kind as u64, || format!("{:?} becomes unavailable", id));
                db.unset(id)
            },
            1 => {
                count("update.value");
                let d = s.of(id.kind);
                let t = Tensor::full(&d, f64::NAN);
                ev(30, id.n as u64, t.hash(), || format!("set {:?} = {:?}", id, t));
                db.set(id, t)
            },
            _ => {
                if id.kind.dynamic() {
                    count("resize.value");
                } else {
                    count("update.value");
                }
                let t = draw_value(id, range_of(id), &s);
                ev(30, id.n as u64, t.hash(), || format!("set {:?} = {:?}", id, t));
                db.set(id, t)
            },
        }
    };
    nontrivial();
    restore();
    let after = if chance(1, 3) {
        // while the call runs
        let out: Cell<Option<Done>> = Cell::new(None);
        {
            let (out, wild) = (&out, &wild);
            let call: Box<dyn FnOnce()> = Box::new(move || {
                let mut p = Plan::default();
                p.cfg.preempt = 32;
                p.yield_op = if chance(1, 2) { range(1, 30) as u64 } else { 0 };
                out.set(Some(exec(db, 1, e, view, p)));
            });
            let other: Box<dyn FnOnce()> = Box::new(move || {
                for _ in 0..range(1, 6) {
                    wild(id);
                    yield_now();
                }
            });
            run_tasks(4, vec![call, other]);
        }
        out.into_inner()
    } else {
        for _ in 0..range(1, 2) {
            wild(id);
        }
        Some(exec(db, 0, e, view, Plan::default()))
    };
    let Some(after) = after else { return };
    fingerprint(mix(before.res_class(), after.res_class()));
    if !same(&before, &after) {
        fail(format!(
            "[independent] {:?} of {:?} says it does not contain {:?}, yet after changing it the result is {:?} instead of {:?}",
            view, e.ast, id, after.res, before.res
        ));
    }
    // undo
    if id.is_slot() {
        db.unset(id);
    } else {
        set_var(db, id, sizes);
    }
}

fn same(a: &Done, b: &Done) -> bool {
    match (&a.res, &b.res) {
        (Called::Done(Ok(x)), Called::Done(Ok(y))) => match (x, y) {
            (Out::Val(x), Out::Val(y)) => x.same_bits(y),
            (Out::Spec(x, _, _), Out::Spec(y, _, _)) => x.same_bits(y),
            (Out::Shape(x), Out::Shape(y)) => x == y,
            (Out::Dual(x, u), Out::Dual(y, v)) => x.same_bits(y) && u.same_bits(v),
            _ => false,
        },
        (Called::Done(Err(x)), Called::Done(Err(y))) => x.kind == y.kind && x.path == y.path,
        (Called::Panicked(_), _) | (_, Called::Panicked(_)) => false,
        _ => false,
    }
}
