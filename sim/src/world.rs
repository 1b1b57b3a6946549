//! Common machinery of the simulated worlds: filling the store, executing one call under a fault
//! plan, judging it, and the quiet phase after the faults stop.
use crate::{
    build::{range_of, value, AnyBuilt, Out, Res, View},
    refer::{Case, Verdict},
    sim::{self, below, call, chance, count, fail, failed, pick, range, Called, Inject},
    store::{Access, Any, Cfg, Db, Kind, Tensor},
};
use std::collections::BTreeSet;

thread_local! {
    /// Set when an expression of this run contracts buffers of run-time size, which then have to be
    /// square for everything to fit.
    pub static SQUARE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Sizes of the buffers of run-time size.
#[derive(Clone, Copy, Debug)]
pub struct Sizes {
    pub v: usize,
    pub g: [usize; 2],
    /// Chance (of 64) that a variable gets another size.
    pub odd: u32,
}

impl Sizes {
    pub fn draw(odd: u32) -> Sizes {
        let v = match below(24) {
            23 => 5 + below(12) as usize,
            k => [2, 1, 3, 0, 4][k as usize % 5],
        };
        let g = if v > 4 { [1 + below(3) as usize, v] } else { [1 + below(3) as usize, 1 + below(3) as usize] };
        if SQUARE.with(|q| q.get()) {
            let v = v.min(6);
            return Sizes { v, g: [v, v], odd };
        }
        Sizes { v, g, odd }
    }
    pub fn of(&self, k: Kind) -> Vec<usize> {
        let odd = k.dynamic() && self.odd > 0 && chance(self.odd, 64);
        match k {
            Kind::V | Kind::D => vec![if odd { below(5) as usize } else { self.v }],
            Kind::G => {
                if odd {
                    count("resize.odd");
                    vec![below(4) as usize, below(4) as usize]
                } else {
                    self.g.to_vec()
                }
            },
            _ => crate::refer::static_dims(Any { kind: k, n: 0 }).unwrap(),
        }
    }
}

pub fn draw_value(id: Any, r: (f64, f64), s: &Sizes) -> Tensor {
    let d = s.of(id.kind);
    if d.is_empty() {
        Tensor::scalar(crate::build::element(r.0, r.1))
    } else {
        value(&d, r)
    }
}

pub fn set_var(db: &Db, id: Any, s: &Sizes) {
    let mut v = draw_value(id, range_of(id), s);
    if let Some(old) = db.get(id).filter(|old| old.dims == v.dims && !v.data.is_empty()) {
        if chance(1, 6) {
            v = nearby(db, id, old);
        }
    }
    sim::ev(30, id.n as u64 | (id.kind as u64) << 8, v.hash(), || format!("set {:?} = {:?}", id, v));
    db.set(id, v);
}

/// A value close to, or built from, one already in the store: what a small training step, a swap, a
/// sign flip or a copy from another variable leaves behind. Stale or confused results that survive
/// unrelated values show up here.
fn nearby(db: &Db, id: Any, mut v: Tensor) -> Tensor {
    count("update.nearby");
    let (lo, hi) = range_of(id);
    let n = v.data.len();
    match below(5) {
        0 | 1 => {
            let step = pick(&[3e-8, 1e-6, 1e-3, 1e-5]);
            let all = chance(1, 2);
            let k = below(n as u32) as usize;
            for (i, x) in v.data.iter_mut().enumerate() {
                if all || i == k {
                    *x += step * if *x > 0.5 * (lo + hi) { -1.0 } else { 1.0 };
                }
            }
        },
        2 => v.data.reverse(),
        3 => {
            for x in v.data.iter_mut() {
                if -*x >= lo && -*x <= hi {
                    *x = -*x;
                }
            }
        },
        _ => {
            let o = Any { kind: id.kind, n: below(3) as _ };
            if let Some(o) = db.get(o) {
                if o.dims == v.dims && o.data.iter().all(|x| *x >= lo && *x <= hi) {
                    return o;
                }
            }
        },
    }
    v
}

/// What happened in one call.
pub struct Done {
    pub res: Called<Res>,
    pub log: Vec<Access>,
    pub t0: u64,
    pub t1: u64,
    pub accesses: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Plan {
    pub cfg: Cfg,
    /// Crash at the k-th arithmetic operation.
    pub crash_op: u64,
    /// Switch clients at the k-th arithmetic operation.
    pub yield_op: u64,
}

pub fn limit(size: u32) -> u32 { 400 * (size + 2) * (size + 2) }

pub fn exec(db: &Db, client: usize, e: &AnyBuilt, view: View, plan: Plan) -> Done {
    let mut cfg = plan.cfg;
    cfg.limit = limit(e.ast.size());
    let t0 = db.with(|s| {
        let c = &mut s.clients[client];
        c.cfg = cfg;
        c.accesses = 0;
        c.log = vec![];
        s.clock
    });
    sim::ev(31, view.code(), client as u64, || format!("client {} asks {:?} of {:?}", client, view, e.ast));
    if plan.crash_op > 0 {
        sim::arm(plan.crash_op, Inject::Crash);
    }
    if plan.yield_op > 0 {
        sim::arm(plan.yield_op, Inject::Yield);
    }
    let mut ctx = db.ctx(client);
    let res = call(|| e.obj.eval(view, &mut ctx));
    sim::disarm();
    let h = match &res {
        Called::Done(Ok(Out::Val(t))) => t.hash(),
        Called::Done(Ok(Out::Spec(_, t, n))) => sim::mix(t.hash(), n.len() as u64),
        Called::Done(Ok(Out::Shape(d))) => d.iter().fold(9, |a, x| sim::mix(a, *x as u64)),
        Called::Done(Ok(Out::Dual(a, b))) => sim::mix(a.hash(), b.hash()),
        Called::Done(Err(e)) => sim::hash_str(&e.text),
        Called::Crashed => 1,
        Called::Panicked(m) => sim::hash_str(m),
    };
    sim::ev(32, client as u64, h, || format!("client {} got {:?}", client, res));
    let (log, accesses, t1) = db.with(|s| {
        let c = &mut s.clients[client];
        c.cfg = Cfg::default();
        (std::mem::take(&mut c.log), c.accesses, s.clock)
    });
    Done { res, log, t0, t1, accesses }
}

impl Done {
    pub fn ok(&self) -> Option<&Out> {
        match &self.res {
            Called::Done(Ok(o)) => Some(o),
            _ => None,
        }
    }
    pub fn err(&self) -> Option<&crate::node::DErr> {
        match &self.res {
            Called::Done(Err(e)) => Some(e),
            _ => None,
        }
    }
}

/// Judge a call by the values the context gave during it. Returns false on a violation.
pub fn judge(db: &Db, e: &AnyBuilt, view: View, d: &Done, tag: &str) -> bool {
    if failed() {
        return false;
    }
    let snapshot = |id: Any| db.with(|s| s.during(id, d.t0, d.t1));
    let case = Case { ast: &e.ast, view, log: &d.log, states: &snapshot };
    match case.judge_accesses() {
        Verdict::Bad(m) => {
            fail(format!("[{}.access] {:?} of {:?}: {}", tag, view, e.ast, m));
            return false;
        },
        Verdict::Undecided => count("oracle.undecided"),
        Verdict::Fine => {},
    }
    match &d.res {
        Called::Done(r) => match case.judge(r) {
            Verdict::Bad(m) => {
                fail(format!("[{}] {:?} of {:?}: {}", tag, view, e.ast, m));
                false
            },
            Verdict::Undecided => {
                count("oracle.undecided");
                true
            },
            Verdict::Fine => {
                count(if r.is_ok() { "oracle.value" } else { "oracle.error" });
                true
            },
        },
        Called::Crashed => true,
        Called::Panicked(m) => {
            fail(format!("[{}.panic] {:?} of {:?} panicked: {}", tag, view, e.ast, m));
            false
        },
    }
}

pub fn all_vars<'a>(es: impl IntoIterator<Item = &'a AnyBuilt>) -> BTreeSet<Any> {
    let mut s = BTreeSet::new();
    for e in es {
        s.extend(e.ast.vars());
    }
    s
}

/// Variables and everything a gradient may be asked for.
pub fn with_targets(es: &[AnyBuilt]) -> Vec<Any> {
    let mut s = all_vars(es);
    if es.iter().any(|e| e.obj.levels().0 > 0) {
        s.extend((0..4).map(|n| Any { kind: Kind::S, n }));
    }
    if es.iter().any(|e| e.obj.levels().1 > 0) {
        s.extend((0..3).map(|n| Any { kind: Kind::A3, n }));
    }
    for k in es.iter().filter_map(|e| e.obj.target()) {
        s.extend((0..3).map(|n| Any { kind: k, n }));
    }
    s.into_iter().collect()
}

pub fn all_slots<'a>(es: impl IntoIterator<Item = &'a AnyBuilt>) -> BTreeSet<Any> {
    let mut s = BTreeSet::new();
    for e in es {
        s.extend(e.ast.slots());
    }
    s
}

/// A random fault plan for one call.
pub fn plan(faults: u32) -> Plan {
    let mut p = Plan::default();
    p.cfg.repr = chance(1, 2);
    if faults == 0 {
        return p;
    }
    match below(8) {
        0 | 1 => {},
        2 => p.cfg.crash_at = range(1, 12) as u32,
        3 => p.crash_op = range(1, 60) as u64,
        4 => p.cfg.hide = 4,
        5 => {
            p.cfg.preempt = 8;
            p.yield_op = range(1, 40) as u64;
        },
        6 => p.cfg.preempt = 24,
        _ => {
            p.cfg.preempt = 8;
            match below(3) {
                0 => p.cfg.crash_at = range(1, 12) as u32,
                1 => p.crash_op = range(1, 60) as u64,
                _ => p.cfg.hide = 4,
            }
        },
    }
    p
}

impl Done {
    /// 0 value, 1 missing, 2 shape, 3 crash, 4 panic
    pub fn res_class(&self) -> u64 {
        match &self.res {
            Called::Done(Ok(_)) => 0,
            Called::Done(Err(e)) => match e.kind {
                crate::node::EKind::Shape(..) => 2,
                _ => 1,
            },
            Called::Crashed => 3,
            Called::Panicked(_) => 4,
        }
    }
}
