//! Seeded search: forked batches of runs, crash-proof violation capture, minimisation, replay files
//! and evidence.
use crate::{alloc, props, sim};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    fs,
    io::{Read, Seek, SeekFrom, Write},
    os::unix::io::FromRawFd,
    path::{Path, PathBuf},
    time::{Duration, Instant},
};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub rule: &'static str,
    /// Components that ran real code / were stood in for, for the evidence file.
    pub real: &'static str,
    pub stub: &'static str,
    /// Quick and thorough number of runs.
    pub quick: u64,
    pub thorough: u64,
    /// Runs per forked batch.
    pub batch: u64,
}

const RUN_LIMIT_S: u32 = 30;
const EXIT_HANG: i32 = 97;
const EXIT_HARNESS: i32 = 96;
const EXIT_PANIC: i32 = 98;

fn root() -> PathBuf { PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }

// --------------------------------------------------------------------------------------------
// Child processes
// --------------------------------------------------------------------------------------------
/// Memory shared with a child: current run, its step count, and the mirrored choices.
struct Shared(*mut u64);

const SHARED_BYTES: usize = 64 + 4 * sim::MIRROR_CAP;

impl Shared {
    fn new() -> Shared {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHARED_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        Shared(p as *mut u64)
    }

    fn run(&self) -> u64 { unsafe { std::ptr::read_volatile(self.0) } }

    fn mirror(&self) -> *mut u32 { unsafe { (self.0 as *mut u8).add(64) as *mut u32 } }

    fn choices(&self) -> Vec<u32> {
        unsafe {
            let m = self.mirror();
            (0..*m as usize).map(|i| *m.add(1 + i)).collect()
        }
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.0 as *mut _, SHARED_BYTES);
        }
    }
}

extern "C" fn on_alarm(_: i32) { unsafe { libc::_exit(EXIT_HANG) } }

struct Child {
    pid: i32,
    fd: i32,
    shared: Shared,
}

#[derive(Debug, Clone)]
enum End {
    Exit(i32),
    Signal(i32),
}

fn spawn(body: impl FnOnce(&Shared) -> Value) -> Child {
    let shared = Shared::new();
    let fd = unsafe { libc::memfd_create(c"out".as_ptr(), 0) };
    assert!(fd >= 0, "harness: memfd");
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        unsafe {
            libc::signal(libc::SIGALRM, on_alarm as *const () as libc::sighandler_t);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // some numerical routines complain on the standard output
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 1);
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&shared)));
        let code = match r {
            Ok(v) => {
                let mut f = unsafe { fs::File::from_raw_fd(fd) };
                let ok = f.write_all(v.to_string().as_bytes()).is_ok();
                std::mem::forget(f);
                if ok {
                    0
                } else {
                    EXIT_HARNESS
                }
            },
            Err(_) => {
                // A panic that starts in the code under test is its failure, not the simulator's.
                let m = sim::last_panic();
                eprintln!("panic outside a guarded call: {}", m);
                if m.contains("/repo/aegir") {
                    EXIT_PANIC
                } else {
                    EXIT_HARNESS
                }
            },
        };
        unsafe { libc::_exit(code) }
    }
    Child { pid, fd, shared }
}

fn decode(st: i32) -> End {
    if libc::WIFEXITED(st) {
        End::Exit(libc::WEXITSTATUS(st))
    } else {
        End::Signal(libc::WTERMSIG(st))
    }
}

fn finish(c: &Child, st: i32) -> (End, Value) {
    let mut f = unsafe { fs::File::from_raw_fd(c.fd) };
    let mut s = String::new();
    let _ = f.seek(SeekFrom::Start(0));
    let _ = f.read_to_string(&mut s);
    (decode(st), serde_json::from_str(&s).unwrap_or(Value::Null))
}

fn wait(c: &Child) -> (End, Value) {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(c.pid, &mut st, 0) };
        if r == c.pid {
            break;
        }
    }
    finish(c, st)
}

// --------------------------------------------------------------------------------------------
// One run
// --------------------------------------------------------------------------------------------
/// Execute one run in this process. Returns the violation, if any.
fn run_once(p: &Prop, seed: u64, replay: Option<Vec<u32>>, tracing: bool) -> Option<String> {
    sim::reset(seed, replay, tracing);
    let bad0 = alloc::stats().2;
    unsafe { libc::alarm(RUN_LIMIT_S) };
    (p.run)();
    unsafe { libc::alarm(0) };
    if alloc::stats().2 != bad0 && !sim::failed() {
        sim::fail("[alloc] a block of memory was freed twice or with the wrong layout");
    }
    sim::with(|s| s.violation.clone())
}

fn run_seed(base: u64, run: u64) -> u64 { sim::mix(base ^ 0xA55A_5AA5, run + 1) }

fn death(e: &End) -> Option<String> {
    match e {
        End::Exit(0) => None,
        End::Exit(EXIT_HANG) => Some(format!("[hang] the run did not finish within {} s", RUN_LIMIT_S)),
        End::Exit(EXIT_PANIC) => Some("[panic] the code under test panicked".into()),
        End::Exit(EXIT_HARNESS) => Some("harness".into()),
        End::Exit(n) => Some(format!("[died] the process exited with status {}", n)),
        End::Signal(n) => Some(format!("[died] the process was killed by signal {}", n)),
    }
}

#[derive(Clone, Debug)]
struct Outcome {
    violation: Option<String>,
    choices: Vec<u32>,
    trace: Vec<String>,
    hash: u64,
    harness: bool,
}

/// Execute, in a fresh process, the runs of `prefix` and then one run from `choices` or its seed.
fn exec(p: &Prop, base: u64, prefix: &[u64], run: u64, choices: Option<Vec<u32>>, tracing: bool) -> Outcome {
    let c = spawn(|sh| {
        for r in prefix {
            if run_once(p, run_seed(base, *r), None, false).is_some() {
                return json!({"prefix_failed": r});
            }
        }
        sim::set_mirror(sh.mirror());
        let v = run_once(p, run_seed(base, run), choices, tracing);
        let (trace, hash) = sim::with(|s| (std::mem::take(&mut s.trace), s.hash));
        json!({"violation": v, "trace": trace, "hash": hash.to_string()})
    });
    let (end, v) = wait(&c);
    let harness = matches!(end, End::Exit(EXIT_HARNESS));
    let violation = death(&end).or_else(|| v["violation"].as_str().map(|s| s.to_string()));
    Outcome {
        violation: if harness { None } else { violation },
        choices: c.shared.choices(),
        trace: v["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
        hash: v["hash"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0),
        harness,
    }
}

fn tag(m: &str) -> String { m.split(']').next().unwrap_or("").to_string() }

fn shrink(p: &Prop, base: u64, prefix: &[u64], run: u64, first: Outcome, budget: Duration) -> (Outcome, u64) {
    let want = tag(first.violation.as_deref().unwrap_or(""));
    let t0 = Instant::now();
    let mut tried = 0u64;
    let mut best = first;
    // a run that hangs costs its whole time limit: keep it as it is
    if want.contains("hang") {
        return (best, 0);
    }
    let mut attempt = |cand: Vec<u32>, best: &mut Outcome| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        tried += 1;
        let o = exec(p, base, prefix, run, Some(cand.clone()), false);
        match &o.violation {
            Some(m) if tag(m) == want => {
                let used = o.choices.len().min(cand.len());
                let mut o = o;
                o.choices = cand[..used].to_vec();
                *best = o;
                true
            },
            _ => false,
        }
    };
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // shorten the tail
        let mut cut = best.choices.len() / 2;
        while cut > 0 {
            let n = best.choices.len().saturating_sub(cut);
            if attempt(best.choices[..n].to_vec(), &mut best) {
                improved = true;
            } else {
                cut /= 2;
            }
        }
        // delete chunks
        let mut size = (best.choices.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.choices.len() {
                let mut c = best.choices.clone();
                c.drain(i..(i + size).min(c.len()));
                if attempt(c, &mut best) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single choices
        let mut size = (best.choices.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.choices.len() {
                let e = (i + size).min(best.choices.len());
                if best.choices[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.choices.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if attempt(c, &mut best) {
                        improved = true;
                    } else if size == 1 {
                        let v = best.choices[i];
                        for w in [v / 2, v - 1] {
                            if w < v && w > 0 {
                                let mut c = best.choices.clone();
                                c[i] = w;
                                if attempt(c, &mut best) {
                                    improved = true;
                                    break;
                                }
                            }
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }
    (best, tried)
}

// --------------------------------------------------------------------------------------------
// Batches
// --------------------------------------------------------------------------------------------
fn batch_body(p: &Prop, base: u64, from: u64, to: u64, sh: &Shared, samples: usize) -> Value {
    use std::fmt::Write;
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fps = String::new();
    let mut hashes = String::new();
    let mut total = 0xcbf2_9ce4_8422_2325u64;
    let (mut steps, mut switches, mut done) = (0u64, 0u64, 0u64);
    let mut smp: Vec<String> = vec![];
    let mut viol = Value::Null;
    for r in from..to {
        unsafe { std::ptr::write_volatile(sh.0, r) };
        let v = run_once(p, run_seed(base, r), None, false);
        done += 1;
        sim::with(|s| {
            for (k, n) in &s.counters {
                *counters.entry(k).or_insert(0) += n;
            }
            steps += s.steps;
            switches += s.switches;
            sim::hash_into(&mut total, s.hash);
            let _ = write!(hashes, "{:016x}", s.hash);
            if s.nontrivial {
                let _ = write!(fps, "{:016x}", s.fingerprint);
                if smp.len() < samples {
                    if let Some(t) = s.sample.take() {
                        smp.push(format!("run {}: {}", r, t));
                    }
                }
            }
        });
        if let Some(m) = v {
            viol = json!({"run": r, "message": m});
            break;
        }
    }
    json!({"counters": counters, "fps": fps, "hashes": hashes, "hash": total.to_string(), "steps": steps,
           "switches": switches, "done": done, "samples": smp, "violation": viol})
}

/// Counts distinct hashes: one bit per hash value modulo the table's size (at least 128 bits per run, so
/// the count is low by less than 0.5 %, never high). The table is not copied into forked children.
struct Distinct {
    bits: *mut u64,
    mask: u64,
    count: u64,
}

impl Distinct {
    fn new(runs: u64) -> Distinct {
        let n = (runs.max(1 << 16) * 128).next_power_of_two().min(1 << 34);
        let bytes = (n / 8) as usize;
        let p = unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                bytes,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "harness: mmap");
            libc::madvise(p, bytes, libc::MADV_DONTFORK);
            p
        };
        Distinct { bits: p as *mut u64, mask: n - 1, count: 0 }
    }
    fn insert(&mut self, h: u64) {
        let b = crate::sim::mix(h, 77) & self.mask;
        unsafe {
            let w = self.bits.add((b / 64) as usize);
            if *w & (1 << (b % 64)) == 0 {
                *w |= 1 << (b % 64);
                self.count += 1;
            }
        }
    }
}

fn spawn_batch(p: &Prop, base: u64, b: u64, runs: u64) -> Child {
    let from = b * p.batch;
    let to = ((b + 1) * p.batch).min(runs);
    spawn(|sh| batch_body(p, base, from, to, sh, if b < 3 { 1 } else { 0 }))
}

pub fn check(p: &Prop, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let mut runs = if thorough { p.thorough } else { p.quick };
    if let Ok(s) = std::env::var("VERIF_RUNS") {
        runs = s.parse().unwrap_or(runs);
    }
    let cap = Duration::from_secs(std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 }));
    let jobs = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let nb = (runs + p.batch - 1) / p.batch;

    let mut live: Vec<(u64, Child)> = vec![];
    let mut next = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps = Distinct::new(runs);
    let mut hashes = Distinct::new(runs);
    let mut nontrivial = 0u64;
    let (mut steps, mut switches, mut done) = (0u64, 0u64, 0u64);
    let mut samples: BTreeMap<u64, Vec<String>> = BTreeMap::new();
    let mut bhash: BTreeMap<u64, String> = BTreeMap::new();
    let mut fails: Vec<(u64, String, u64)> = vec![]; // run, message, batch start
    let mut stop = false;
    let mut harness = false;
    while next < nb || !live.is_empty() {
        while !stop && next < nb && live.len() < jobs {
            live.push((next, spawn_batch(p, base, next, runs)));
            next += 1;
            if t0.elapsed() > cap {
                stop = true;
            }
        }
        if live.is_empty() {
            break;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        let Some(i) = live.iter().position(|(_, c)| c.pid == pid) else { continue };
        let (b, c) = live.remove(i);
        let (end, v) = finish(&c, st);
        match death(&end) {
            Some(m) if m == "harness" => {
                harness = true;
                stop = true;
                eprintln!("harness error in run {}", c.shared.run());
            },
            Some(m) => {
                fails.push((c.shared.run(), m, b * p.batch));
                stop = true;
            },
            None => {
                if let Some(cs) = v["counters"].as_object() {
                    for (k, n) in cs {
                        *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                    }
                }
                for (key, set) in [("fps", &mut fps), ("hashes", &mut hashes)] {
                    let hex = v[key].as_str().unwrap_or("");
                    if key == "fps" {
                        nontrivial += hex.len() as u64 / 16;
                    }
                    for k in (0..hex.len()).step_by(16) {
                        set.insert(u64::from_str_radix(&hex[k..k + 16], 16).unwrap_or(0));
                    }
                }
                steps += v["steps"].as_u64().unwrap_or(0);
                switches += v["switches"].as_u64().unwrap_or(0);
                done += v["done"].as_u64().unwrap_or(0);
                let smp: Vec<String> = v["samples"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
                if !smp.is_empty() {
                    samples.insert(b, smp);
                }
                if b < 4 {
                    bhash.insert(b, v["hash"].as_str().unwrap_or("").to_string());
                }
                if let Some(r) = v["violation"]["run"].as_u64() {
                    fails.push((r, v["violation"]["message"].as_str().unwrap_or("").to_string(), b * p.batch));
                    stop = true;
                }
            },
        }
    }
    if harness && fails.is_empty() {
        println!("{}: the harness failed; no verdict", p.id);
        return 2;
    }

    // Determinism self-check: the same batch in another process must have the same event hash.
    let mut rechecked = 0;
    let mut diverged = 0;
    if fails.is_empty() {
        for b in 0..nb.min(2) {
            if let Some(h) = bhash.get(&b) {
                let c = spawn_batch(p, base, b, runs);
                let (_, v) = wait(&c);
                rechecked += 1;
                if v["hash"].as_str() != Some(h.as_str()) {
                    diverged += 1;
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // Known findings: replayed by dedicated scenarios, reported and not counted as violations.
    let mut known: Vec<Value> = vec![];
    for k in props::known::scenarios(p.id) {
        let c = spawn(|_| {
            sim::reset(0, None, false);
            unsafe { libc::alarm(RUN_LIMIT_S) };
            json!((k.run)())
        });
        let (end, v) = wait(&c);
        let fails_now = death(&end).is_some() || v.as_bool() == Some(true);
        if fails_now {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
        known.push(json!({"id": k.id, "what": k.what, "still_fails": fails_now}));
    }

    fails.sort();
    let mut code = 0;
    let mut replay = Value::Null;
    if let Some((run, msg, bstart)) = fails.first().cloned() {
        code = 1;
        let path = report(p, tier, base, run, &msg, bstart);
        println!("{}: {}", p.id, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        replay = json!(path.display().to_string());
    }
    let wall = t0.elapsed().as_secs_f64();
    let (faults, other): (BTreeMap<String, u64>, BTreeMap<String, u64>) = counters.into_iter().partition(|(k, _)| is_fault(k));
    let samples: Vec<String> = samples.into_values().flatten().take(4).collect();
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "wall_s": wall,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": fps.count,
            "rule": p.rule,
            "samples": samples,
            "nontrivial_runs": nontrivial,
            "distinct_event_histories": hashes.count,
            "simulated_runs_per_hour": if search_s > 0.0 { (done as f64 / search_s * 3600.0).round() } else { 0.0 },
            "simulated_time": {"unit": "recorded simulator events (the library has no clock)", "total": steps},
            "context_switches": switches,
            "faults_injected": faults,
            "operations": other,
            "determinism_recheck": {"batches": rechecked, "diverged": diverged},
            "real_code": p.real,
            "stubbed": p.stub,
            "runs_planned": runs,
            "known_findings": known,
            "violation_replay": replay,
        }
    });
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} {}: {} runs ({} non-trivial, {} distinct) in {:.1} s, {} events, {} violation(s), recheck {}/{} ok",
        p.id,
        tier,
        done,
        nontrivial,
        fps.count,
        wall,
        steps,
        fails.len(),
        rechecked - diverged,
        rechecked
    );
    if code == 0 && diverged > 0 {
        println!("{}: the simulation is not deterministic; no verdict", p.id);
        return 2;
    }
    code
}

fn is_fault(k: &str) -> bool {
    ["preempt", "crash", "stall", "missing", "repr", "lost", "conflict", "resize", "update", "fail", "sink", "clear", "abandon", "copy", "retry", "restart", "poison"]
        .iter()
        .any(|x| k.starts_with(x))
}

fn report(p: &Prop, tier: &str, base: u64, run: u64, msg: &str, bstart: u64) -> PathBuf {
    // Does it happen in a fresh process? Otherwise keep the runs before it (state left behind by the
    // code under test in the process).
    let mut prefix: Vec<u64> = vec![];
    let mut o = exec(p, base, &[], run, None, false);
    if o.violation.is_none() {
        let mut n = 1;
        loop {
            prefix = (run.saturating_sub(n).max(bstart)..run).collect();
            o = exec(p, base, &prefix, run, None, false);
            if o.violation.is_some() || run.saturating_sub(n) <= bstart {
                break;
            }
            n *= 2;
        }
    }
    let reproduced = o.violation.is_some() && !o.harness;
    let mut tried = 0;
    let orig = o.choices.len();
    if reproduced {
        let (b, t) = shrink(p, base, &prefix, run, o.clone(), Duration::from_secs(if tier == "thorough" { 60 } else { 25 }));
        o = b;
        tried = t;
    }
    let fin = exec(p, base, &prefix, run, if reproduced { Some(o.choices.clone()) } else { None }, true);
    let path = root().join("replays").join(format!("{}-{}-{}.json", p.id, base, run));
    let _ = fs::create_dir_all(path.parent().unwrap());
    let v = json!({
        "property": p.id,
        "seed": base,
        "run": run,
        "prefix_runs": prefix,
        "choices": o.choices,
        "message": fin.violation.clone().unwrap_or_else(|| msg.to_string()),
        "first_message": msg,
        "reproduced": reproduced,
        "minimisation": {"choices_before": orig, "choices_after": o.choices.len(), "executions": tried},
        "trace": fin.trace,
        "event_hash": fin.hash.to_string(),
    });
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay");
    path
}

fn replay(path: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(path).expect("replay file")).expect("replay json");
    let p = props::find(v["property"].as_str().unwrap()).expect("property");
    let nums = |k: &str| -> Vec<u64> { v[k].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect() };
    let choices: Vec<u32> = nums("choices").into_iter().map(|x| x as u32).collect();
    let ch = if v["reproduced"].as_bool() == Some(false) { None } else { Some(choices) };
    let o = exec(&p, v["seed"].as_u64().unwrap(), &nums("prefix_runs"), v["run"].as_u64().unwrap(), ch, true);
    for l in &o.trace {
        println!("{}", l);
    }
    match o.violation {
        Some(m) => {
            println!("{}: {}", p.id, m);
            println!("same events as recorded: {}", v["event_hash"].as_str() == Some(o.hash.to_string().as_str()));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        },
        None => {
            println!("{}: no violation", p.id);
            0
        },
    }
}

pub fn main(args: &[String]) -> i32 {
    sim::install_hook();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let p = props::find(&args[1]).expect("unknown property");
            let tier = get("--tier").unwrap_or_else(|| "quick".into());
            check(&p, &tier, seed)
        },
        Some("replay") => replay(Path::new(&args[1])),
        Some("trace") => {
            // print the trace of one run
            let p = props::find(&args[1]).expect("unknown property");
            let run = args[2].parse().unwrap();
            let o = exec(&p, seed, &[], run, None, true);
            for l in &o.trace {
                println!("{}", l);
            }
            println!("{:?}", o.violation);
            0
        },
        _ => {
            eprintln!("usage: sim check <ID> [--tier quick|thorough] [--seed N] | replay <file> | trace <ID> <run>");
            2
        },
    }
}
