//! C05: operands of different run-time sizes give a shape error naming both sizes.
use crate::{
    build::{AnyBuilt, Gen, Opts, Out, View, G, V},
    field::SimF,
    node::{EKind, IntoDErr},
    orch::Prop,
    sim::{below, call, chance, count, ev, fail, failed, fingerprint, mix, nontrivial, range, run_tasks, sample, yield_now, Called},
    store::{represent, Any, Buf, Db, Grid, KBuf, Kind, Tensor, F},
    world::*,
};
use aegir::buffers::{shapes::Shaped, Buffer, Spec, ZipFold, ZipMap};
use std::cell::Cell;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        run,
        rule: "the operator trees, the sizes of every variable at each call, the views and outcomes",
        real: "elementwise operators, sums, memos, structured forms, shapes and broadcasting of /repo/aegir; Vec buffers and the provided buffer methods",
        stub: "the context (simulated store that resizes variables at any moment), the number type, a user-written matrix type of run-time size",
        quick: 2_000_000,
        thorough: 60_000_000,
        batch: 2000,
    }
}

fn run() {
    if chance(1, 6) {
        return buffers();
    }
    let mut g = Gen::new(Opts { cache: if chance(1, 6) { 6 } else { 0 }, max_size: 14, ..Opts::default() });
    let d = range(1, 4) as u32;
    let e = match below(5) {
        0 | 1 => AnyBuilt::new(g.gen_v(d)),
        2 | 3 => AnyBuilt::new(g.gen_g(d)),
        _ => {
            let s = if chance(1, 2) {
                let b = g.gen_v(d);
                g.sum(&b)
            } else {
                let b = g.gen_g(d);
                g.sum(&b)
            };
            match s {
                Some(s) => AnyBuilt::new(s),
                None => return,
            }
        },
    };
    fingerprint(e.ast.hash());
    sample(|| format!("{:?}", e.ast));
    let vars: Vec<Any> = e.ast.vars().into_iter().collect();
    let db = Db::new(2);
    let odd = Cell::new(0u32);
    let base = Sizes::draw(0);
    let put = |id: Any| {
        let s = Sizes { odd: if chance(1, 3) { 48 } else { 0 }, ..base };
        set_var(&db, id, &s);
        odd.set(odd.get() + 1);
        fingerprint(db.get(id).unwrap().data.len() as u64);
    };
    for v in &vars {
        put(*v);
    }
    if chance(1, 3) {
        let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
        let (db2, e2) = (&db, &e);
        tasks.push(Box::new(move || {
            for _ in 0..range(1, 5) {
                if failed() {
                    return;
                }
                let mut p = Plan::default();
                p.cfg.preempt = 24;
                p.cfg.repr = chance(1, 2);
                one(db2, e2, p);
                yield_now();
            }
        }));
        let (put2, vars2, db3, e3) = (&put, &vars, &db, &e);
        tasks.push(Box::new(move || {
            for _ in 0..range(1, 10) {
                if let Some(v) = some(vars2) {
                    count("resize.value");
                    put2(v);
                }
                for s in e3.ast.slots() {
                    db3.unset(s);
                }
                yield_now();
            }
        }));
        run_tasks(5, tasks);
    } else {
        for _ in 0..range(1, 6) {
            if failed() {
                return;
            }
            let mut p = Plan::default();
            p.cfg.repr = chance(1, 2);
            one(&db, &e, p);
            if let Some(v) = some(&vars) {
                count("resize.value");
                put(v);
            }
            for s in e.ast.slots() {
                db.unset(s);
            }
        }
    }
    if failed() {
        return;
    }
    // sizes agree again
    for v in &vars {
        set_var(&db, *v, &base);
    }
    for s in e.ast.slots() {
        db.unset(s);
    }
    for view in [View::Value, View::Spec, View::Shape] {
        let d = exec(&db, 0, &e, view, Plan::default());
        if !judge(&db, &e, view, &d, "equal") {
            return;
        }
        if d.ok().is_none() {
            return fail(format!("[equal] {:?} of {:?} fails although all sizes are equal: {:?}", view, e.ast, d.err()));
        }
    }
}

fn some(v: &[Any]) -> Option<Any> {
    if v.is_empty() {
        None
    } else {
        Some(v[below(v.len() as u32) as usize])
    }
}

fn one(db: &Db, e: &AnyBuilt, p: Plan) {
    let view = [View::Value, View::Spec, View::Shape][below(3) as usize];
    let d = exec(db, 0, e, view, p);
    fingerprint(mix(view.code(), d.res_class()));
    if d.res_class() == 2 {
        count("conflict.sizes");
        nontrivial();
    }
    if !judge(db, e, view, &d, "sizes") {
        return;
    }
    if let Some(err) = d.err() {
        if !matches!(err.kind, EKind::Shape(..)) {
            return fail(format!("[kind] {:?} of {:?}: {:?}", view, e.ast, err));
        }
    }
    if p.cfg.preempt == 0 && e.ast.slots().is_empty() {
        // one state: the shape query and the value must tell the same story
        let s = exec(db, 0, e, View::Shape, Plan::default());
        if !judge(db, e, View::Shape, &s, "sizes") {
            return;
        }
        let v = exec(db, 0, e, View::Value, p);
        match (v.ok(), s.ok()) {
            (Some(Out::Val(t)), Some(Out::Shape(w))) if t.dims == *w => {},
            (Some(v), s2) => fail(format!("[agree] {:?}: value {:?}, shape query {:?} / {:?}", e.ast, v, s2, s.err())),
            (None, None) => {
                let (a, b) = (v.err(), s.err());
                if a.map(|x| (&x.kind, &x.path)) != b.map(|x| (&x.kind, &x.path)) {
                    // several mismatches may be found in a different order
                    count("oracle.order");
                }
            },
            (None, Some(_)) => {
                if !matches!(*e.ast, crate::ast::Ast::Sum(_)) && !sums(&e.ast) {
                    fail(format!("[agree] {:?}: shape query {:?} although the value fails: {:?}", e.ast, s.ok(), v.err()));
                }
            },
        }
    }
}

fn sums(a: &crate::ast::Ast) -> bool {
    let mut b = false;
    a.walk(&mut |n| b |= matches!(n, crate::ast::Ast::Sum(_) | crate::ast::Ast::Pow(..)));
    b
}

/// The same, at the level of buffers.
fn buffers() {
    nontrivial();
    count("op.buffers");
    for _ in 0..4 {
        if failed() {
            return;
        }
        let (k, dl, dr) = if chance(1, 2) {
            let m = if chance(1, 12) { 20 } else { 4 };
            let l = below(m) as usize;
            (Kind::V, vec![l], vec![if chance(1, 3) { l } else { below(m) as usize }])
        } else {
            (Kind::G, vec![below(3) as usize, below(3) as usize], vec![below(3) as usize, below(3) as usize])
        };
        let (l, r) = (crate::build::value(&dl, (-2.0, 2.0)), crate::build::value(&dr, (-2.0, 2.0)));
        fingerprint(mix(l.hash(), r.hash()));
        if dl != dr {
            count("conflict.sizes");
        }
        match k {
            Kind::V if chance(1, 5) => fold(&l, &r),
            Kind::V => pair::<V>(&l, &r),
            _ => pair::<G>(&l, &r),
        }
    }
}

fn fold(l: &Tensor, r: &Tensor) {
    let (a, b) = (V::from_tensor(l), V::from_tensor(r));
    let got = call(|| a.zip_fold(&b, SimF(0.5), |acc: F, (x, y)| SimF(2.0 * acc.0 + x.0 - 2.0 * y.0)).map_err(IntoDErr::into_derr));
    ev(51, 0, 0, || format!("zip_fold of {:?} and {:?}: {:?}", l, r, got));
    let want = l.data.iter().zip(&r.data).fold(0.5, |a, (x, y)| 2.0 * a + x - 2.0 * y);
    let ok = match &got {
        Called::Done(Ok(x)) => l.dims == r.dims && x.0 == want,
        Called::Done(Err(e)) => l.dims != r.dims && e.kind == EKind::Shape(l.dims.clone(), r.dims.clone()),
        _ => false,
    };
    if !ok {
        fail(format!("[buffer] zip_fold of {:?} and {:?} gave {:?}, expected {:?}", l, r, got, want));
    }
}

fn pair<B>(l: &Tensor, r: &Tensor)
where
    B: KBuf + ZipMap + Clone,
    <B as ZipMap>::Output<F>: Buffer<Field = F> + ToT,
    <B as Shaped>::Shape: aegir::buffers::shapes::Broadcast<<B as Shaped>::Shape, Shape = <B as Shaped>::Shape> + crate::store::Dims,
{
    let f = |x: F, y: F| SimF(x.0 - 2.0 * y.0);
    let want: Option<Tensor> = (l.dims == r.dims).then(|| Tensor {
        dims: l.dims.clone(),
        data: l.data.iter().zip(&r.data).map(|(x, y)| x - 2.0 * y).collect(),
    });
    let check = |what: &str, got: Called<Result<Tensor, crate::node::DErr>>, want: Option<Tensor>| {
        ev(50, 0, 0, || format!("{} of {:?} and {:?}: {:?}", what, l, r, got));
        let ok = match (&got, &want) {
            (Called::Done(Ok(t)), Some(w)) => t.dims == w.dims && t.data == w.data,
            (Called::Done(Err(e)), None) => e.kind == EKind::Shape(l.dims.clone(), r.dims.clone()),
            _ => false,
        };
        if !ok {
            fail(format!("[buffer] {} of {:?} and {:?} gave {:?}, expected {:?}", what, l, r, got, want));
        }
    };
    let (a, b) = (B::from_tensor(l), B::from_tensor(r));
    match below(4) {
        0 => check("zip_map", call(|| a.zip_map(&b, f).map(|x| x.to_t()).map_err(IntoDErr::into_derr)), want),
        1 => check("zip_map_id", call(|| a.zip_map_id(&b, f).map(|x| x.to_t()).map_err(IntoDErr::into_derr)), want),
        2 => check(
            "zip_shape",
            call(|| a.zip_shape(b.shape()).map(|x| x.to_t()).map_err(IntoDErr::into_derr)),
            want.map(|_| l.clone()),
        ),
        _ => {
            let (sa, sb): (Spec<B>, Spec<B>) = (represent(l, true), represent(r, true));
            check("Spec::zip_map", call(|| sa.zip_map(&sb, f).map(|s| s.unwrap().to_t()).map_err(IntoDErr::into_derr)), want)
        },
    }
}

pub trait ToT {
    fn to_t(&self) -> Tensor;
}
impl ToT for Vec<F> {
    fn to_t(&self) -> Tensor { self.to_tensor() }
}
impl ToT for Grid<F> {
    fn to_t(&self) -> Tensor { self.to_tensor() }
}
