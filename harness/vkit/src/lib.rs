//! A small runner for property checks: generates cases with proptest from VERIF_SEED, measures
//! what was generated, shrinks a failure, writes it as a replay file and reports in the
//! interface format of the task. See DESIGN.md.

use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::AssertUnwindSafe,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub use proptest;
use proptest::{
    strategy::Strategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
pub use serde;
use serde::{de::DeserializeOwned, Serialize};
pub use serde_json;
use serde_json::{json, Value};

/// Why a case failed. `sig` names the violated clause and, for known findings, the exact
/// input class; it never depends on source text of the code under test.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

/// `ensure!(cond, "signature", "message {}", args..)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::Fail { sig: $sig.to_string(), msg: format!($($arg)*) }); }
    };
    ($c:expr, $sig:expr) => {
        if !($c) { return Err($crate::Fail { sig: $sig.to_string(), msg: stringify!($c).to_string() }); }
    };
}

/// `ensure_eq!(a, b, "signature")`
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {
        $crate::ensure_eq!($a, $b, $sig, "")
    };
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return Err($crate::Fail { sig: $sig.to_string(),
                msg: $crate::clip(format!("{} != {}: got {:?}, expected {:?}; {}", stringify!($a), stringify!($b), a, b, format!($($arg)*)), 4000) });
        }
    }};
}

pub fn clip(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

/// Records what kind of case is being run.
#[derive(Default)]
pub struct Cover {
    labels: RefCell<Vec<String>>,
    nontrivial: RefCell<bool>,
    extra: RefCell<u64>,
}

impl Cover {
    pub fn label(&self, l: impl Into<String>) {
        self.labels.borrow_mut().push(l.into());
    }
    pub fn label_if(&self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    /// The case is non-trivial by the sub-check's stated rule.
    pub fn nontrivial(&self) {
        *self.nontrivial.borrow_mut() = true;
    }
    pub fn nontrivial_if(&self, c: bool) {
        if c {
            self.nontrivial()
        }
    }
    /// Count elementary comparisons made beyond the case itself (reported separately).
    pub fn comparisons(&self, n: u64) {
        *self.extra.borrow_mut() += n;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    comparisons: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, (u64, String)>,
}

struct FailReport {
    case: Value,
    fail: Fail,
    shrunk: bool,
}

type RunFn = Box<dyn Fn(&RunArgs) -> Option<FailReport> + Send + Sync>;
type ReplayFn = Box<dyn Fn(Value) -> Result<(), Fail> + Send + Sync>;

struct RunArgs<'a> {
    cases: u32,
    seed: [u8; 32],
    stats: &'a Mutex<Stats>,
    stop: &'a AtomicBool,
    known: &'a [String],
    trace: Option<PathBuf>,
    progress: &'a AtomicU64,
    prop: &'a str,
    sub: &'a str,
}

/// One sub-check: a strategy, a property over its values and a number of cases.
pub struct Sub {
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    serial: bool,
    shards: usize,
    shrink: Arc<AtomicUsize>,
    run: RunFn,
    replay: ReplayFn,
}

impl Sub {
    /// Run alone, not beside other sub-checks (it uses several threads itself).
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    /// Maximal number of shrink steps.
    pub fn shrink(self, n: usize) -> Self {
        self.shrink.store(n, Ordering::Relaxed);
        self
    }
    pub fn shards(mut self, n: usize) -> Self {
        self.shards = n;
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
        if !quiet && std::env::var_os("VKIT_SHOW_PANICS").is_some() {
            default(info);
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

/// Run `f`; `Err(message)` if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|p| {
        LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or_else(|| payload_str(&*p))
    })
}

fn run_case<C>(case: &C, cover: &Cover, f: &(dyn Fn(&C, &Cover) -> Res)) -> Res {
    match catch(|| f(case, cover)) {
        Ok(r) => r,
        Err(msg) => fail("panic", format!("panicked: {msg}")),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Build a sub-check. `rule` says how cases are made and which are non-trivial.
pub fn sub<S, F>(name: &'static str, quick: u32, thorough: u32, rule: &'static str, strategy: S, f: F) -> Sub
where
    S: Strategy + 'static,
    S::Value: Debug + Clone + Serialize + DeserializeOwned,
    F: Fn(&S::Value, &Cover) -> Res + Send + Sync + 'static,
{
    // Boxed strategies are not marked Send/Sync although every one built here is a pure
    // description (data and closures over data) that generation only reads.
    struct Shared<S>(S);
    unsafe impl<S> Send for Shared<S> {}
    unsafe impl<S> Sync for Shared<S> {}
    impl<S> Shared<S> {
        fn get(&self) -> &S {
            &self.0
        }
    }
    let strategy = Shared(strategy);
    let f = Arc::new(f);
    let shrink = Arc::new(AtomicUsize::new(2000));
    let (f2, shrink2) = (f.clone(), shrink.clone());
    let run: RunFn = Box::new(move |a: &RunArgs| {
        let cfg = Config {
            cases: a.cases,
            failure_persistence: None,
            max_shrink_iters: shrink2.load(Ordering::Relaxed) as u32,
            max_shrink_time: 45_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &a.seed);
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let shrinking = RefCell::new(false);
        let last = RefCell::new(None::<Fail>);
        let shrink_steps = RefCell::new(0usize);
        let result = runner.run(strategy.get(), |case| {
            if a.stop.load(Ordering::Relaxed) && !*shrinking.borrow() {
                return Ok(());
            }
            if let Some(t) = &a.trace {
                let v = json!({"property": a.prop, "sub": a.sub, "case": serde_json::to_value(&case).unwrap()});
                let _ = std::fs::write(t, v.to_string());
            }
            let cover = Cover::default();
            let r = run_case(&case, &cover, &*f2);
            if let Some(t) = &a.trace {
                let _ = std::fs::remove_file(t);
            }
            a.progress.fetch_add(1, Ordering::Relaxed);
            let known = match &r {
                Err(e) => a.known.contains(&e.sig),
                Ok(()) => false,
            };
            if !*shrinking.borrow() {
                let mut st = a.stats.lock().unwrap();
                st.evals += 1;
                st.comparisons += *cover.extra.borrow();
                let nontrivial = *cover.nontrivial.borrow();
                for l in cover.labels.borrow().iter() {
                    *st.labels.entry(format!("{}:{}", a.sub, l)).or_default() += 1;
                }
                if nontrivial {
                    let s = serde_json::to_string(&case).unwrap();
                    let h = hash_str(&format!("{}{}", a.sub, s));
                    st.distinct.insert(h);
                    let n = st.samples.iter().filter(|x| x["sub"] == a.sub).count();
                    if n < 2 {
                        st.samples.push(json!({"sub": a.sub, "case": clip(s, 700)}));
                    }
                }
                if known {
                    let e = r.as_ref().unwrap_err();
                    let k = st.known.entry(e.sig.clone()).or_insert((0, clip(e.msg.clone(), 300)));
                    k.0 += 1;
                }
            } else {
                *shrink_steps.borrow_mut() += 1;
            }
            match r {
                Err(e) if !known => {
                    *shrinking.borrow_mut() = true;
                    a.stop.store(true, Ordering::Relaxed);
                    let m = e.msg.clone();
                    *last.borrow_mut() = Some(e);
                    Err(TestCaseError::fail(m))
                }
                _ => Ok(()),
            }
        });
        match result {
            Ok(()) => None,
            Err(TestError::Fail(_, case)) => {
                // Re-run the minimal case to report its own failure.
                let again = run_case(&case, &Cover::default(), &*f2);
                let fail = match again {
                    Err(e) => e,
                    Ok(()) => {
                        let mut e = last.borrow().clone().unwrap();
                        e.msg.push_str(" [not reproduced when run once more]");
                        e
                    }
                };
                Some(FailReport {
                    case: serde_json::to_value(&case).unwrap(),
                    fail,
                    shrunk: *shrink_steps.borrow() > 0,
                })
            }
            Err(TestError::Abort(r)) => {
                eprintln!("ERROR: generator of {}/{} aborted: {}", a.prop, a.sub, r);
                std::process::exit(3);
            }
        }
    });
    let replay: ReplayFn = Box::new(move |v: Value| {
        let case: S::Value = serde_json::from_value(v).map_err(|e| Fail { sig: "replay-format".into(), msg: e.to_string() })?;
        run_case(&case, &Cover::default(), &*f)
    });
    Sub { name, rule, quick, thorough, serial: false, shards: 16, shrink, run, replay }
}

pub struct Check {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn known_sigs(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        let l = l.trim();
        if l.starts_with('#') || l.starts_with("fixed:") || l.is_empty() {
            continue;
        }
        let mut it = l.splitn(3, ' ');
        if it.next() == Some(&format!("property={prop}")) {
            if let Some(sig) = it.next().and_then(|x| x.strip_prefix("sig=")) {
                out.push((sig.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    out
}

fn mix(seed: u64, parts: &[&str]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut x: u64 = seed ^ (0x9e37_79b9_7f4a_7c15u64.wrapping_mul(i as u64 + 1));
        for p in parts {
            for b in p.bytes() {
                x = (x ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
                x ^= x >> 29;
            }
            x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ (x >> 31);
        }
        chunk.copy_from_slice(&x.to_le_bytes());
    }
    out
}

/// CPU time used by this process so far.
pub fn cpu_time() -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// Entry point of a harness binary: `BIN ID [--replay FILE]`.
pub fn main(checks: Vec<Check>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "--list" {
        for c in &checks {
            println!("{}", c.id);
        }
        std::process::exit(0);
    }
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(3);
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok().map(|x| x as u64)).unwrap_or(1);

    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        install_panic_hook();
        replay(&check, Path::new(&args[3]));
    }
    if std::env::var_os("VKIT_CHILD").is_none() {
        supervise(&check, &args);
    }
    install_panic_hook();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_check(check, tier, seed)).unwrap();
    match h.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => {
            eprintln!("ERROR: runner panicked: {:?}", LAST_PANIC.with(|x| x.borrow().clone()));
            std::process::exit(3)
        }
    }
}

fn replay(check: &Check, file: &Path) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let name = v["sub"].as_str().unwrap().to_string();
    let case = v["case"].clone();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                let sub = check.subs.iter().find(|s| s.name == name).expect("sub-check");
                (sub.replay)(case)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("replay of {}: holds", file.display());
            std::process::exit(0)
        }
        Err(e) => {
            println!("replay of {}: {} ({})", file.display(), e.msg, e.sig);
            println!("VIOLATION property={} replay={}", check.id, file.display());
            std::process::exit(1)
        }
    }
}

fn is_crash(sig: Option<i32>) -> bool {
    matches!(sig, Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGABRT | libc::SIGFPE))
}

/// Run the check in a child so that a memory fault in the code under test is a finding with
/// a replay file and not the silent death of the check.
fn supervise(check: &Check, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let run = |trace: Option<&Path>| {
        let mut c = Command::new(&exe);
        c.args(&args[1..]).env("VKIT_CHILD", "1");
        if let Some(t) = trace {
            c.env("VKIT_TRACE", t).stdout(Stdio::null()).stderr(Stdio::null());
        }
        c.status().expect("spawn child")
    };
    let st = run(None);
    if let Some(code) = st.code() {
        std::process::exit(code);
    }
    if !is_crash(st.signal()) {
        eprintln!("ERROR: check process ended by signal {:?}", st.signal());
        std::process::exit(3);
    }
    // Find the crashing case: same seed, with every case noted before it runs.
    let dir = verif_dir().join("replays").join(check.id).join(format!("trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let st2 = run(Some(&dir));
    let mut candidates: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
    candidates.sort();
    if is_crash(st2.signal()) {
        for c in &candidates {
            let r = Command::new(&exe).arg(check.id).arg("--replay").arg(c).env("VKIT_CHILD", "1").stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
            if is_crash(r.signal()) || candidates.len() == 1 {
                let out = verif_dir().join("replays").join(check.id).join("crash.json");
                let _ = std::fs::copy(c, &out);
                let _ = std::fs::remove_dir_all(&dir);
                println!("process died with signal {:?} while running this case", st.signal());
                println!("VIOLATION property={} replay={}", check.id, out.display());
                write_crash_evidence(check);
                std::process::exit(1);
            }
        }
        // Memory damage shows only after several cases: the replay is the run itself.
        let out = verif_dir().join("replays").join(check.id).join("crash-run.json");
        let all: Vec<Value> = candidates.iter().filter_map(|c| std::fs::read_to_string(c).ok()).filter_map(|s| serde_json::from_str(&s).ok()).collect();
        let _ = std::fs::write(&out, json!({"property": check.id, "note": "process crashes reproducibly in a run with this seed; cases in flight below", "seed": std::env::var("VERIF_SEED").ok(), "in_flight": all}).to_string());
        let _ = std::fs::remove_dir_all(&dir);
        println!("process died twice with signal {:?}/{:?}", st.signal(), st2.signal());
        println!("VIOLATION property={} replay={}", check.id, out.display());
        write_crash_evidence(check);
        std::process::exit(1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    eprintln!("ERROR: check process died with signal {:?} and did not do so again", st.signal());
    std::process::exit(3);
}

fn write_crash_evidence(check: &Check) {
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let v = json!({
        "property": check.id, "tier": if tier == "thorough" {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended by a memory fault in the code under test", "samples": ["see replay file"]},
        "wall_s": 0.0, "violations": 1
    });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let _ = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", check.id)), v.to_string());
}

fn run_check(check: Check, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let known_list = known_sigs(check.id);
    let known: Vec<String> = known_list.iter().map(|x| x.0.clone()).collect();
    let stats = Mutex::new(Stats::default());
    let stop = AtomicBool::new(false);
    let progress = AtomicU64::new(0);
    let trace_dir = std::env::var_os("VKIT_TRACE").map(PathBuf::from);
    let only = std::env::var("VKIT_ONLY").ok();
    let scale: f64 = std::env::var("VKIT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let reports: Mutex<Vec<(String, FailReport)>> = Mutex::new(vec![]);
    let sub_secs: Mutex<BTreeMap<String, f64>> = Mutex::new(BTreeMap::new());

    // Work items: (sub index, shard, shards, cases)
    let mut items = vec![];
    let mut serial_items = vec![];
    for (i, s) in check.subs.iter().enumerate() {
        if let Some(o) = &only {
            if !s.name.contains(o.as_str()) {
                continue;
            }
        }
        let total = match tier {
            Tier::Quick => s.quick,
            Tier::Thorough => s.thorough,
        };
        let total = ((total as f64) * scale).ceil() as u32;
        let shards = if s.serial { 1 } else { s.shards.min(total as usize).max(1) };
        for k in 0..shards {
            let n = total / shards as u32 + u32::from((total as usize % shards) > k);
            let it = (i, k, n);
            if s.serial {
                serial_items.push(it)
            } else {
                items.push(it)
            }
        }
    }
    let run_item = |(i, k, n): (usize, usize, u32), worker: usize| {
        let s = &check.subs[i];
        let t0 = Instant::now();
        let a = RunArgs {
            cases: n,
            seed: mix(seed, &[check.id, s.name, &k.to_string()]),
            stats: &stats,
            stop: &stop,
            known: &known,
            trace: trace_dir.as_ref().map(|d| d.join(format!("w{worker}.json"))),
            progress: &progress,
            prop: check.id,
            sub: s.name,
        };
        if stop.load(Ordering::Relaxed) {
            return;
        }
        if let Some(r) = (s.run)(&a) {
            reports.lock().unwrap().push((s.name.to_string(), r));
        }
        *sub_secs.lock().unwrap().entry(s.name.to_string()).or_default() += t0.elapsed().as_secs_f64();
    };
    let workers: usize = std::env::var("VKIT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for w in 0..workers.min(items.len()) {
            let (next, items, run_item) = (&next, &items, &run_item);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || loop {
                    let j = next.fetch_add(1, Ordering::Relaxed);
                    if j >= items.len() {
                        break;
                    }
                    run_item(items[j], w);
                })
                .unwrap();
        }
    });
    for it in serial_items {
        run_item(it, 0);
    }

    let stats = stats.into_inner().unwrap();
    let reports = reports.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let rule = check.subs.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect::<Vec<_>>().join(" ");
    let mut samples = stats.samples.clone();
    if samples.is_empty() {
        samples.push(json!("no non-trivial case was generated"));
    }
    for (_, (n, m)) in stats.known.iter() {
        let _ = (n, m);
    }
    let ev = json!({
        "property": check.id,
        "tier": if tier == Tier::Thorough {"thorough"} else {"quick"},
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evals,
            "distinct_nontrivial": stats.distinct.len(),
            "rule": rule,
            "samples": samples,
            "labels": stats.labels,
            "comparisons": stats.comparisons,
            "excluded_known_findings": stats.known.iter().map(|(k, v)| (k.clone(), json!(v.0))).collect::<serde_json::Map<_, _>>(),
            "cpu_seconds_per_subcheck": *sub_secs.lock().unwrap(),
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": reports.len(),
    });
    if trace_dir.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    for (sig, note) in &known_list {
        println!("KNOWN-FINDING: property={} sig={} {}{}", check.id, sig, note, match stats.known.get(sig) {
            Some((n, _)) => format!(" (hit by {n} cases of this run)"),
            None => " (not hit in this run)".into(),
        });
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} comparisons, {:.1} s",
        check.id, stats.evals, stats.distinct.len(), stats.comparisons, wall
    );
    if std::env::var_os("VKIT_VERBOSE").is_some() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["labels"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["cpu_seconds_per_subcheck"]).unwrap());
    }
    let mut code = 0;
    for (sub, r) in reports {
        let dir = verif_dir().join("replays").join(check.id);
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}.json", sub));
        let v = json!({"property": check.id, "sub": sub, "case": r.case, "sig": r.fail.sig, "message": r.fail.msg, "seed": seed as i64, "shrunk": r.shrunk,
            "replay_cmd": format!("./check.sh {} --replay {}", check.id, file.display())});
        std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("violated [{}] {}: {}", sub, r.fail.sig, clip(r.fail.msg.clone(), 1500));
        println!("  case: {}", clip(v["case"].to_string(), 1500));
        println!("VIOLATION property={} replay={}", check.id, file.display());
        code = 1;
    }
    code
}

/// Wait for `done` in a helper's stead: `Err` if the whole process stays idle (no CPU time
/// consumed over `samples` consecutive samples of 250 ms) while `done` is false, which for a
/// computation without external input means it will never finish.
pub fn wait_or_quiescent(done: &AtomicBool, samples: u32) -> Result<(), ()> {
    let mut idle = 0;
    let mut last = cpu_time();
    let mut spins = 0u32;
    loop {
        if done.load(Ordering::Acquire) {
            return Ok(());
        }
        if spins < 2000 {
            spins += 1;
            std::thread::sleep(Duration::from_micros(500));
            if spins == 2000 {
                last = cpu_time();
            }
            continue;
        }
        std::thread::sleep(Duration::from_millis(250));
        let now = cpu_time();
        if now - last < Duration::from_millis(3) {
            idle += 1;
        } else {
            idle = 0;
        }
        last = now;
        if idle >= samples {
            return if done.load(Ordering::Acquire) { Ok(()) } else { Err(()) };
        }
    }
}
