//! C12: printing to a sink that fails reports the failure and stops writing.
use crate::{
    alloc,
    build::{AnyBuilt, Gen, Opts, View},
    orch::Prop,
    sim::{below, call, chance, count, crash, ev, fail, failed, fingerprint, hash_str, mix, nontrivial, range, run_tasks, sample, yield_now, Called},
    store::Db,
    world::*,
};
use aegir::{
    buffers::{
        shapes::{IncompatibleShapes, SDynamic, S0, S1, S2, S3, S4, S5, S6},
        Spec,
    },
    errors::{BinaryError, NoError, UnaryError},
    fmt::{Expr, PreWrap, ToExpr},
    ids,
    meta::SourceError,
    ops::{TensorDoubleDot, TensorProduct},
    Dual, Node,
};
use std::{cell::Cell, fmt, fmt::Write as _, rc::Rc};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        run,
        rule: "what was printed (expression, gradient, error, shape, identifier), in which format, and where and how the sink failed",
        real: "Display and Debug of operators, sources, gradient expressions, errors, shapes and identifiers of /repo/aegir and /repo/aegir_derive",
        stub: "the sinks, the clients",
        quick: 4_000_000,
        thorough: 80_000_000,
        batch: 2000,
    }
}

ids!(Weight::w, Bias::"b\u{2081}", Plain, Another, LongName::"a long name", Braced::"a{{b}}c",
    Padded::" p  q ", Quoted::"say \"x\\y\"\n", Blank::"", Wide::"the quick brown fox jumps over the lazy dog, and then once more", Letter_2::x_2);

// --------------------------------------------------------------------------------------------
// Things to print
// --------------------------------------------------------------------------------------------
type Printer = dyn Fn(&mut fmt::Formatter<'_>) -> fmt::Result;

struct Show<'a>(&'a Printer);
impl fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (self.0)(f) }
}

#[derive(Clone)]
struct Item {
    what: String,
    print: Rc<Printer>,
    /// What its text is known to be, or to contain.
    exact: Option<String>,
    holds: Vec<String>,
    /// `{:#}`
    alt: bool,
}

fn both<T: fmt::Display + fmt::Debug + 'static>(what: &str, x: T, exact: Option<String>, holds: Vec<String>) -> Item {
    let debug = chance(1, 4);
    let alt = debug && chance(1, 2);
    Item {
        what: format!("{}{}", what, if debug { " (debug)" } else { "" }),
        print: Rc::new(move |f| if debug { fmt::Debug::fmt(&x, f) } else { fmt::Display::fmt(&x, f) }),
        exact: if debug { None } else { exact },
        holds: if debug { vec![] } else { holds },
        alt,
    }
}

fn by_times(d: &[usize]) -> String { d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" \u{00D7} ") }

fn shape() -> Item {
    let n = |k: usize| -> Vec<usize> { (0..k).map(|_| below(1200) as usize).collect() };
    match below(12) {
        0 => both("S0", S0, Some("S0".into()), vec![]),
        1 => both("S1", S1::<3>, Some("3".into()), vec![]),
        2 => both("S2", S2::<12, 345>, Some(by_times(&[12, 345])), vec![]),
        3 => both("S3", S3::<1, 0, 2>, Some(by_times(&[1, 0, 2])), vec![]),
        4 => both("S4", S4::<4, 3, 2, 1>, Some(by_times(&[4, 3, 2, 1])), vec![]),
        5 => both("S5", S5::<1, 20, 3, 4, 55>, Some(by_times(&[1, 20, 3, 4, 55])), vec![]),
        10 => both("S6", S6::<1, 20, 3, 4, 55, 6>, Some(by_times(&[1, 20, 3, 4, 55, 6])), vec![]),
        11 => {
            let d = n(6);
            both("SDynamic<6>", SDynamic([d[0], d[1], d[2], d[3], d[4], d[5]]), None, d.iter().map(|x| x.to_string()).collect())
        },
        6 => both("SDynamic<0>", SDynamic([]), None, vec![]),
        7 => {
            let d = n(1);
            both("SDynamic<1>", SDynamic([d[0]]), None, vec![d[0].to_string()])
        },
        8 => {
            let d = n(2);
            both("SDynamic<2>", SDynamic([d[0], d[1]]), None, d.iter().map(|x| x.to_string()).collect())
        },
        _ => {
            let d = n(4);
            both("SDynamic<4>", SDynamic([d[0], d[1], d[2], d[3]]), None, d.iter().map(|x| x.to_string()).collect())
        },
    }
}

fn ident() -> Item {
    match below(15) {
        0 | 1 => letter(),
        10 => both("id Padded", Padded, Some(" p  q ".into()), vec![]),
        11 => both("id Quoted", Quoted, Some("say \"x\\y\"\n".into()), vec![]),
        12 => both("id Blank", Blank, Some(String::new()), vec![]),
        13 => both("id Wide", Wide, Some("the quick brown fox jumps over the lazy dog, and then once more".into()), vec![]),
        14 => both("id Letter_2", Letter_2, Some("x_2".into()), vec![]),
        2 => both("id Weight", Weight, Some("w".into()), vec![]),
        3 => both("id Bias", Bias, Some("b\u{2081}".into()), vec![]),
        4 => both("id Plain", Plain, Some("Plain".into()), vec![]),
        5 => both("id Another", Another, Some("Another".into()), vec![]),
        6 => both("id LongName", LongName, Some("a long name".into()), vec![]),
        7 => both("id Braced", Braced, Some("a{{b}}c".into()), vec![]),
        8 => both("missing Braced", SourceError::Undefined(Braced), None, vec!["Braced".into()]),
        _ => letter(),
    }
}

/// One of the library's own identifiers: letters that print as themselves.
fn letter() -> Item {
    macro_rules! letters {
        ($($id:ident $text:expr),*) => {
            [$(|| both(concat!("id ", stringify!($id)), aegir::ids::$id, Some($text.into()), vec![]),)*]
        };
    }
    let all: [fn() -> Item; 50] = letters![
        A "a", B "b", C "c", D "d", E "e", F "f", G "g", H "h", I "i", J "j", K "k", L "l", M "m", N "n", O "o", P "p", Q "q", R "r",
        S "s", T "t", U "u", V "v", W "w", X "x", Y "y", Z "z",
        Alpha "\u{3B1}", Beta "\u{3B2}", Gamma "\u{3B3}", Delta "\u{3B4}", Epsilon "\u{3B5}", Zeta "\u{3B6}", Eta "\u{3B7}",
        Theta "\u{3B8}", Iota "\u{3B9}", Kappa "\u{3BA}", Lambda "\u{3BB}", Mu "\u{3BC}", Nu "\u{3BD}", Xi "\u{3BE}",
        Omicron "\u{3BF}", Pi "\u{3C0}", Rho "\u{3C1}", Sigma "\u{3C3}", Tau "\u{3C4}", Upsilon "\u{3C5}", Phi "\u{3C6}",
        Chi "\u{3C7}", Psi "\u{3C8}", Omega "\u{3C9}"
    ];
    all[below(50) as usize]()
}

fn error() -> Item {
    type Src = SourceError<Plain>;
    let src = || SourceError::Undefined(Plain);
    let n = |_| below(100) as usize;
    let (a, b) = (n(0), n(1));
    let inc = IncompatibleShapes { left: SDynamic([a]), right: SDynamic([b]) };
    let sizes = vec![format!("{}", SDynamic([a])), format!("{}", SDynamic([b]))];
    let name = vec!["Plain".to_string()];
    match below(9) {
        0 => both("missing variable", src(), None, name),
        1 => both("incompatible shapes", inc, None, sizes),
        2 => both("reversed shapes", inc.reverse(), None, sizes),
        3 => both("mixed shapes", IncompatibleShapes { left: S2::<2, 3>, right: S0 }, None, vec![by_times(&[2, 3]), "S0".into()]),
        4 => both("unary inner", UnaryError::<Src, IncompatibleShapes<SDynamic<1>>>::Inner(src()), Some(src().to_string()), name),
        5 => both("unary output", UnaryError::<Src, IncompatibleShapes<SDynamic<1>>>::Output(inc), Some(inc.to_string()), sizes),
        6 => both("binary left", BinaryError::<Src, UnaryError<Src, NoError>, IncompatibleShapes<SDynamic<1>>>::Left(src()), Some(src().to_string()), name),
        7 => both("binary right", BinaryError::<Src, UnaryError<Src, NoError>, IncompatibleShapes<SDynamic<1>>>::Right(UnaryError::Inner(src())), Some(src().to_string()), name),
        _ => both("binary output", BinaryError::<BinaryError<Src, Src, NoError>, Src, IncompatibleShapes<SDynamic<1>>>::Output(inc), Some(inc.to_string()), sizes),
    }
}

fn debugged<T: fmt::Debug + 'static>(what: &str, x: T) -> Item {
    let alt = chance(1, 2);
    Item { what: what.into(), print: Rc::new(move |f| fmt::Debug::fmt(&x, f)), exact: None, holds: vec![], alt }
}

fn other() -> Item {
    match below(4) {
        0 => debugged("dual", Dual { value: 1.5, adjoint: [0.25, -3.0] }),
        1 => debugged("full", Spec::<[[f64; 3]; 2]>::Full(S2, 0.5)),
        2 => debugged("diagonal", Spec::<[[f64; 2]; 2]>::Diagonal(S2, 7.0)),
        _ => debugged("raw", Spec::<Vec<f64>>::Raw(vec![1.0; below(4) as usize])),
    }
}

/// What an operand's text may be.
#[derive(Clone, Copy, Debug)]
enum Leaf {
    Zero,
    One,
    Text,
    Wrapped,
}
impl Node for Leaf {}
impl ToExpr for Leaf {
    fn to_expr(&self) -> Expr {
        let text = |t: &str, needs_wrap| Expr::Text(PreWrap { text: t.to_string(), needs_wrap });
        match self {
            Leaf::Zero => Expr::Zero,
            Leaf::One => Expr::One,
            Leaf::Text => text("leaf", false),
            Leaf::Wrapped => text("two leaves", true),
        }
    }
}
impl fmt::Display for Leaf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.to_expr().fmt(f) }
}

/// Every operator over operands that print as zero, one or something else.
fn simplified() -> Item {
    let l = [Leaf::Zero, Leaf::One, Leaf::Text, Leaf::Wrapped];
    let (x, y) = (l[below(4) as usize], l[below(4) as usize]);
    macro_rules! of {
        ($e:expr) => {{
            let e = $e;
            both(&format!("{:?}", e), e, None, vec![])
        }};
    }
    match below(14) {
        0 => of!(x.add(y)),
        1 => of!(x.sub(y)),
        2 => of!(x.mul(y)),
        3 => of!(x.div(y)),
        4 => of!(x.pow(y)),
        5 => of!(TensorProduct::new(x, y)),
        6 => of!(x.dot(y)),
        7 => of!(TensorDoubleDot::new(x, y)),
        8 => of!(x.neg()),
        9 => of!(x.squared()),
        10 => of!(x.ln()),
        11 => of!(x.sum()),
        12 => of!(x.sigmoid()),
        _ => of!(x.abs()),
    }
}

fn expr(e: &Rc<AnyBuilt>) -> Item {
    let debug = chance(1, 3);
    let alt = debug && chance(1, 3);
    let v = if chance(1, 2) { e.any_view(true) } else { View::Value };
    let e = e.clone();
    let v = match v {
        View::GradS(_) | View::GradA(_) | View::Hess(..) | View::Jac(..) => v,
        _ => View::Value,
    };
    Item {
        what: format!("{:?} of {:?}{}", v, e.ast, if debug { " (debug)" } else { "" }),
        print: Rc::new(move |f| match v {
            View::Value => e.obj.fmt(debug, f),
            _ => e.obj.fmt_grad(v, debug, f),
        }),
        exact: None,
        holds: vec![],
        alt,
    }
}

// --------------------------------------------------------------------------------------------
// Sinks
// --------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug)]
enum How {
    /// The k-th piece is rejected whole.
    Piece(u32),
    /// Room for so many bytes: the piece that does not fit is rejected, or cut.
    Room(u32, bool),
    /// The k-th piece makes the sink crash.
    Crash(u32),
    Never,
}

struct Sink {
    how: How,
    got: String,
    pieces: u32,
    failed: bool,
    after: u32,
    preempt: bool,
    /// After the failure, further pieces would be accepted again.
    heals: bool,
}

impl Sink {
    fn new(how: How, preempt: bool, heals: bool) -> Sink { Sink { how, got: String::new(), pieces: 0, failed: false, after: 0, preempt, heals } }
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.pieces += 1;
        if self.failed {
            self.after += 1;
            return if self.heals { alloc::harness(|| self.got.push_str(s)); Ok(()) } else { Err(fmt::Error) };
        }
        if self.preempt && chance(1, 3) {
            count("preempt.sink");
            yield_now();
        }
        match self.how {
            How::Piece(k) if self.pieces == k => {
                self.failed = true;
                count("sink.rejects");
                Err(fmt::Error)
            },
            How::Room(n, cut) if self.got.len() + s.len() > n as usize => {
                self.failed = true;
                count(if cut { "sink.short" } else { "sink.full" });
                if cut {
                    let mut k = n as usize - self.got.len();
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    alloc::harness(|| self.got.push_str(&s[..k]));
                }
                Err(fmt::Error)
            },
            How::Crash(k) if self.pieces == k => {
                self.failed = true;
                count("crash.sink");
                crash()
            },
            _ => {
                alloc::harness(|| self.got.push_str(s));
                Ok(())
            },
        }
    }
}

fn print(sink: &mut Sink, it: &Item) -> Called<fmt::Result> {
    call(|| if it.alt { write!(sink, "{:#}", Show(&*it.print)) } else { write!(sink, "{}", Show(&*it.print)) })
}

/// The text, from a sink that works.
fn text(it: &Item) -> Option<String> {
    let mut s = Sink::new(How::Never, false, false);
    match print(&mut s, it) {
        Called::Done(Ok(())) => Some(s.got),
        o => {
            fail(format!("[working] printing {} to a working sink ended with {:?}", it.what, o));
            None
        },
    }
}

fn try_failing(it: &Item, full: &str) {
    let n = full.len() as u32;
    let how = match below(8) {
        0 => How::Never,
        1 | 2 => How::Piece(range(1, 6) as u32),
        3 => How::Piece(range(1, 40) as u32),
        4 => How::Room(below(n + 1), false),
        5 | 6 => How::Room(below(n + 1), true),
        _ => How::Crash(range(1, 8) as u32),
    };
    let mut s = Sink::new(how, chance(1, 3), chance(1, 2));
    let r = print(&mut s, it);
    ev(90, hash_str(&s.got), s.pieces as u64, || format!("printing {} to a sink that fails by {:?}: {:?}, {:?} accepted in {} pieces", it.what, how, r, s.got, s.pieces));
    fingerprint(mix(hash_str(&it.what), mix(s.pieces as u64, hash_str(&s.got))));
    if s.failed {
        nontrivial();
    }
    if s.after > 0 {
        return fail(format!("[after] printing {} ({:?}) goes on after the sink failed ({:?}): {} more pieces", it.what, full, how, s.after));
    }
    if !full.starts_with(&s.got) {
        return fail(format!("[prefix] printing {}: the sink accepted {:?}, which does not begin the text {:?}", it.what, s.got, full));
    }
    match (r, s.failed) {
        (Called::Panicked(m), _) => fail(format!("[panic] printing {} panicked: {}", it.what, m)),
        (Called::Done(Ok(())), true) => fail(format!("[report] printing {}: the sink failed ({:?}) but success is reported", it.what, how)),
        (Called::Done(Err(_)), false) => fail(format!("[report] printing {}: failure is reported though the sink accepted everything", it.what)),
        (Called::Crashed, false) => fail("[harness] crash without a crash"),
        (Called::Done(Ok(())), false) if s.got != full => {
            fail(format!("[complete] printing {} again gives {:?} instead of {:?}", it.what, s.got, full))
        },
        _ => {},
    }
}

fn run() {
    let before = alloc::stats();
    alloc::harness(scenario);
    // everything above is the simulator's own book-keeping or text; only double frees count
    if alloc::stats().2 != before.2 {
        fail("[free] printing frees memory twice or wrongly");
    }
}

fn scenario() {
    let mut g = Gen::new(Opts { cache: 0, diff: chance(1, 2), spec: chance(1, 4), max_size: 24, ..Opts::default() });
    let d = range(1, 5) as u32;
    let e = Rc::new(g.gen_any(d));
    sample(|| format!("{:?}", e.ast));
    let db = Db::new(2);
    let sizes = Sizes::draw(0);
    for v in all_vars(std::slice::from_ref(&*e)) {
        set_var(&db, v, &sizes);
    }
    let mut items = vec![];
    for _ in 0..range(1, 4) {
        items.push(match below(9) {
            0 => shape(),
            1 => ident(),
            2 | 3 => error(),
            4 => other(),
            5 => simplified(),
            _ => expr(&e),
        });
    }
    let clock = db.clock();
    let mut texts = vec![];
    for it in &items {
        let Some(t) = text(it) else { return };
        if let Some(x) = &it.exact {
            if t != *x {
                return fail(format!("[text] {} prints as {:?} instead of {:?}", it.what, t, x));
            }
        }
        for h in &it.holds {
            if !t.contains(h.as_str()) {
                return fail(format!("[text] {} prints as {:?}, without {:?}", it.what, t, h));
            }
        }
        texts.push(t);
    }
    // clients print, evaluate and are cut short, in any order
    let stop = Cell::new(false);
    let n = range(1, 3) as usize;
    let mut tasks: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for _ in 0..n {
        let k = range(1, 4);
        let (items, texts, stop) = (&items, &texts, &stop);
        tasks.push(Box::new(move || {
            for _ in 0..k {
                if failed() || stop.get() {
                    return;
                }
                let i = below(items.len() as u32) as usize;
                try_failing(&items[i], &texts[i]);
                yield_now();
            }
        }));
    }
    if tasks.len() == 1 {
        (tasks.pop().unwrap())()
    } else {
        run_tasks(4, tasks)
    }
    if failed() {
        return;
    }
    if db.clock() != clock {
        return fail("[context] printing touched the context");
    }
    if chance(1, 2) {
        // evaluating in between changes no text
        let view = e.any_view(true);
        exec(&db, 0, &e, view, plan(1));
    }
    for (it, t) in items.iter().zip(&texts) {
        match text(it) {
            Some(u) if u == *t => {},
            Some(u) => return fail(format!("[again] {} now prints as {:?} instead of {:?}", it.what, u, t)),
            None => return,
        }
    }
}

