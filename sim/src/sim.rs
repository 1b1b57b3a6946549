//! Simulator core: recorded choices, events, fault counters, injection points and the scheduler.
//!
//! Everything a run does is a function of the list of choices it draws here. A choice of 0 is always
//! the simplest alternative (no fault, no preemption, smallest structure), so that replay files can
//! be minimised by deleting and zeroing choices.
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// --------------------------------------------------------------------------------------------
// Choices
// --------------------------------------------------------------------------------------------
struct Src {
    rng: u64,
    replay: Option<Vec<u32>>,
    rec: Vec<u32>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(32);
    splitmix(&mut x)
}

pub struct Sim {
    src: Src,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub violation: Option<String>,
    pub fingerprint: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub task: usize,
    pub switches: u64,
}

thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim::new(0, None));
    static OPS: Cell<u64> = const { Cell::new(0) };
    static TRIGGER: Cell<u64> = const { Cell::new(u64::MAX) };
    static ARMED: RefCell<Vec<(u64, Inject)>> = const { RefCell::new(Vec::new()) };
    static YIELDER: Cell<*const Yielder<(), ()>> = const { Cell::new(std::ptr::null()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Capacity (in words) of the shared mirror of the choices, which survives a dying child process.
pub const MIRROR_CAP: usize = 1 << 20;

thread_local! {
    static MIRROR: Cell<*mut u32> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn set_mirror(p: *mut u32) { MIRROR.with(|m| m.set(p)) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inject {
    Yield,
    Crash,
}

/// Payload of an injected crash.
pub struct Crash;

impl Sim {
    fn new(seed: u64, replay: Option<Vec<u32>>) -> Sim {
        Sim {
            src: Src { rng: seed, replay, rec: Vec::new() },
            tracing: false,
            trace: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            steps: 0,
            counters: BTreeMap::new(),
            violation: None,
            fingerprint: 0,
            nontrivial: false,
            sample: None,
            task: 0,
            switches: 0,
        }
    }
}

pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R { crate::alloc::harness(|| SIM.with(|s| f(&mut s.borrow_mut()))) }

pub fn reset(seed: u64, replay: Option<Vec<u32>>, tracing: bool) {
    disarm();
    crate::world::SQUARE.with(|q| q.set(false));
    OPS.with(|o| o.set(0));
    YIELDER.with(|y| y.set(std::ptr::null()));
    with(|s| {
        let mut n = Sim::new(seed, replay);
        n.tracing = tracing;
        *s = n;
    })
}

/// Draw from `[0, n)`.
pub fn below(n: u32) -> u32 {
    debug_assert!(n > 0);
    with(|s| {
        let pos = s.src.rec.len();
        let v = match &s.src.replay {
            Some(r) => r.get(pos).copied().unwrap_or(0).min(n - 1),
            None => ((splitmix(&mut s.src.rng) >> 32).wrapping_mul(n as u64) >> 32) as u32,
        };
        s.src.rec.push(v);
        let m = MIRROR.with(|m| m.get());
        if !m.is_null() && s.src.rec.len() < MIRROR_CAP {
            unsafe {
                *m.add(s.src.rec.len()) = v;
                *m = s.src.rec.len() as u32;
            }
        }
        if s.src.rec.len() > 2_000_000 {
            panic!("harness: too many choices in one run");
        }
        v
    })
}

/// True with probability `num/den`; 0 is false.
pub fn chance(num: u32, den: u32) -> bool { below(den) >= den - num }

/// Inclusive range; 0 gives `lo`.
pub fn range(lo: i64, hi: i64) -> i64 { lo + below((hi - lo + 1) as u32) as i64 }

pub fn pick<T: Clone>(xs: &[T]) -> T { xs[below(xs.len() as u32) as usize].clone() }

pub fn recorded() -> Vec<u32> { with(|s| s.src.rec.clone()) }

// --------------------------------------------------------------------------------------------
// Events
// --------------------------------------------------------------------------------------------
pub fn hash_into(h: &mut u64, v: u64) { *h = (*h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (v >> 7); }

pub fn hash_str(x: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for b in x.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    h
}

/// Record an event: `code`, `a`, `b` enter the run hash; the text is only built when tracing.
pub fn ev(code: u32, a: u64, b: u64, text: impl FnOnce() -> String) {
    let tr = with(|s| {
        s.steps += 1;
        let t = s.task as u64;
        hash_into(&mut s.hash, code as u64 ^ (t << 32));
        hash_into(&mut s.hash, a);
        hash_into(&mut s.hash, b);
        s.tracing
    });
    if tr {
        let t = crate::alloc::harness(text);
        with(|s| {
            if s.trace.len() < 4000 {
                let line = format!("[{:>4}] t{} {}", s.steps, s.task, t);
                s.trace.push(line)
            }
        });
    }
}

pub fn note(text: impl FnOnce() -> String) { ev(1, 0, 0, text) }

pub fn count(name: &'static str) { count_n(name, 1) }
pub fn count_n(name: &'static str, n: u64) { with(|s| *s.counters.entry(name).or_insert(0) += n) }

/// Report that the property under test is broken in this run (the first report is kept).
pub fn fail(msg: impl Into<String>) {
    let m: String = msg.into();
    ev(2, 0, 0, || format!("VIOLATED: {}", m));
    with(|s| {
        if s.violation.is_none() {
            s.violation = Some(m);
        }
    })
}

pub fn failed() -> bool { with(|s| s.violation.is_some()) }

pub fn nontrivial() { with(|s| s.nontrivial = true) }

pub fn fingerprint(v: u64) { with(|s| { let mut f = s.fingerprint; hash_into(&mut f, v); s.fingerprint = f; }) }

pub fn sample(f: impl FnOnce() -> String) {
    if with(|s| s.sample.is_none()) {
        let t = crate::alloc::harness(f);
        with(|s| s.sample = Some(t));
    }
}

// --------------------------------------------------------------------------------------------
// Injection points
// --------------------------------------------------------------------------------------------
/// One arithmetic operation of the simulated number type (or user callback).
#[inline]
pub fn op_point() {
    OPS.with(|o| {
        let n = o.get() + 1;
        o.set(n);
        if n >= TRIGGER.with(|t| t.get()) {
            op_slow(n);
        }
    })
}

pub fn ops() -> u64 { OPS.with(|o| o.get()) }

#[cold]
fn op_slow(n: u64) {
    let inj = ARMED.with(|a| {
        let mut a = a.borrow_mut();
        let i = a.iter().position(|x| x.0 <= n);
        i.map(|i| a.remove(i).1)
    });
    retrigger();
    match inj {
        Some(Inject::Yield) => {
            count("preempt.op");
            ev(3, n, 0, || "preempted inside an arithmetic operation".into());
            yield_now();
        },
        Some(Inject::Crash) => {
            count("crash.op");
            ev(4, n, 0, || "crash injected inside an arithmetic operation".into());
            crash();
        },
        None => {},
    }
}

fn retrigger() {
    let m = ARMED.with(|a| a.borrow().iter().map(|x| x.0).min().unwrap_or(u64::MAX));
    TRIGGER.with(|t| t.set(m));
}

/// Arm an injection at the `k`-th (1-based) arithmetic operation from now.
pub fn arm(k: u64, i: Inject) {
    let n = ops() + k;
    crate::alloc::harness(|| ARMED.with(|a| a.borrow_mut().push((n, i))));
    retrigger();
}

pub fn disarm() {
    ARMED.with(|a| a.borrow_mut().clear());
    retrigger();
}

pub fn crash() -> ! { std::panic::panic_any(Crash) }

// --------------------------------------------------------------------------------------------
// Calling into the code under test
// --------------------------------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
pub enum Called<T> {
    Done(T),
    Crashed,
    Panicked(String),
}

impl<T> Called<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Called<U> {
        match self {
            Called::Done(t) => Called::Done(f(t)),
            Called::Crashed => Called::Crashed,
            Called::Panicked(m) => Called::Panicked(m),
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Crash>() {
            return;
        }
        crate::alloc::harness(|| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        })
    }));
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Run `f`, separating injected crashes from genuine panics.
pub fn call<T>(f: impl FnOnce() -> T) -> Called<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Called::Done(v),
        Err(p) if p.is::<Crash>() => Called::Crashed,
        Err(_) => Called::Panicked(last_panic()),
    }
}

// --------------------------------------------------------------------------------------------
// Scheduler
// --------------------------------------------------------------------------------------------
thread_local! {
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

/// Give other tasks a chance to run; no-op outside `run_tasks`.
pub fn yield_now() {
    let y = YIELDER.with(|y| y.get());
    if !y.is_null() {
        // The pointer is only set while the coroutine that owns the yielder is running.
        unsafe { (*y).suspend(()) };
    }
}

pub fn in_task() -> bool { !YIELDER.with(|y| y.get()).is_null() }

struct Saved {
    armed: Vec<(u64, Inject)>,
    yielder: *const Yielder<(), ()>,
}

/// Run the tasks to completion, interleaved at their yield points by drawn choices.
///
/// `switch` is the chance (out of 8) of considering a switch at a yield point.
pub fn run_tasks<'a>(switch: u32, tasks: Vec<Box<dyn FnOnce() + 'a>>) {
    let n = tasks.len();
    let mut cors: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = tasks
        .into_iter()
        .map(|t| {
            let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(512 * 1024).expect("stack"));
            // All coroutines finish before this function returns, so borrowing for 'a is fine.
            Some(unsafe {
                Coroutine::with_stack_unchecked(stack, move |y: &Yielder<(), ()>, _| {
                    YIELDER.with(|c| c.set(y as *const _));
                    t();
                })
            })
        })
        .collect();
    // Operation-level injections are per task: park them while the task is not running.
    let mut saved: Vec<Saved> = (0..n).map(|_| Saved { armed: Vec::new(), yielder: std::ptr::null() }).collect();
    let mut live: Vec<usize> = (0..n).collect();
    let mut stalled: Vec<u32> = vec![0; n];
    let mut cur = 0usize; // position in `live`
    let mut first = true;
    while !live.is_empty() {
        // Choose who runs next: 0 keeps the current task.
        let k = live.len() as u32;
        if k > 1 && (first || chance(switch, 8)) {
            let d = below(k) as usize;
            if d != 0 {
                with(|s| s.switches += 1);
                cur = (cur + d) % live.len();
                if chance(1, 24) {
                    // the task we leave is stalled for a while
                    let st = range(1, 30) as u32;
                    let left = live[(cur + live.len() - d) % live.len()];
                    stalled[left] = st;
                    count("stall");
                }
            }
        }
        first = false;
        // skip stalled tasks as long as somebody else can run
        let mut tries = 0;
        while stalled[live[cur]] > 0 && tries < live.len() {
            stalled[live[cur]] -= 1;
            cur = (cur + 1) % live.len();
            tries += 1;
        }
        let id = live[cur];
        with(|s| s.task = id + 1);
        ARMED.with(|a| *a.borrow_mut() = std::mem::take(&mut saved[id].armed));
        retrigger();
        YIELDER.with(|c| c.set(saved[id].yielder));
        let r = cors[id].as_mut().unwrap().resume(());
        saved[id].yielder = YIELDER.with(|c| c.get());
        saved[id].armed = ARMED.with(|a| std::mem::take(&mut *a.borrow_mut()));
        TRIGGER.with(|t| t.set(u64::MAX));
        YIELDER.with(|c| c.set(std::ptr::null()));
        if let CoroutineResult::Return(()) = r {
            if let Some(c) = cors[id].take() {
                crate::alloc::harness(|| STACKS.with(|s| s.borrow_mut().push(c.into_stack())));
            }
            live.remove(cur);
            if !live.is_empty() {
                cur %= live.len();
            }
        }
    }
    with(|s| s.task = 0);
}
