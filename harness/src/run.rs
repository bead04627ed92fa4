//! The property runner: generation, panics, shrinking, evidence, replay files, watchdog.
use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    hash::{DefaultHasher, Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex, OnceLock,
        atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering},
    },
    time::Instant,
};

/// What an evaluation that found no violation says about the case.
#[derive(Default)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// a recorded finding showed itself
    pub known: Option<String>,
}
impl Seen {
    pub fn yes() -> Self {
        Self { nontrivial: true, ..Self::default() }
    }
    pub fn when(b: bool) -> Self {
        Self { nontrivial: b, ..Self::default() }
    }
    pub fn label(mut self, l: &'static str) -> Self {
        self.labels.push(l);
        self
    }
    pub fn label_if(mut self, b: bool, l: &'static str) -> Self {
        if b {
            self.labels.push(l);
        }
        self
    }
}
pub type Res = Result<Seen, String>;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub per_kind: BTreeMap<String, u64>,
}
pub struct Violation {
    pub kind: String,
    pub subject: String,
    pub msg: String,
    pub case: Value,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub stats: Mutex<Stats>,
    pub start: Instant,
}

static FAILED: AtomicBool = AtomicBool::new(false);

impl Ctx {
    /// Whether it is time to report: long before a quick check is given up on, and sooner once there
    /// is a violation to report.
    pub fn over(&self) -> bool {
        let t = self.start.elapsed().as_secs();
        !self.thorough && (t > 700 || t > 200 && FAILED.load(Ordering::Relaxed))
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(Cell::get) {
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_else(|| "panic".into());
            let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{m}{l}")));
        } else {
            old(i);
        }
    }));
}

/// Runs `f`; a panic becomes an error, except a panic of the harness itself.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.starts_with("harness:") {
                eprintln!("ERROR: {m}");
                std::process::exit(3);
            }
            Err(format!("panic: {m}"))
        }
    }
}

pub fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------- watchdog

pub static TICK: AtomicU64 = AtomicU64::new(0);
/// The property being decided.
pub static PROP: OnceLock<&'static str> = OnceLock::new();

/// What a thread is busy with, for when it does not come back.
struct Slot {
    /// changes with every case
    turn: AtomicU64,
    tid: AtomicI32,
    case: Mutex<Option<Busy>>,
}
struct Busy(*const dyn Fn() -> (&'static str, String, Value));
// SAFETY: dereferenced only under the lock, which the owner needs to leave the scope of the closure
unsafe impl Send for Busy {}
static SLOTS: [Slot; 512] = [const { Slot { turn: AtomicU64::new(0), tid: AtomicI32::new(0), case: Mutex::new(None) } }; 512];
static TAKEN: AtomicUsize = AtomicUsize::new(0);
/// Slot (plus 1) of a thread that has been aborted
static CRASHED: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

/// As `guarded`, and if `f` never ends or takes the process down, the case becomes a violation all the same.
pub fn on<T>(case: &dyn Fn() -> (&'static str, String, Value), f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    if SLOT.get() == 0 {
        SLOT.set(TAKEN.fetch_add(1, Ordering::Relaxed) + 1);
    }
    let Some(slot) = SLOTS.get(SLOT.get() - 1) else { return guarded(f) };
    slot.tid.store(unsafe { libc::gettid() }, Ordering::Relaxed);
    slot.turn.fetch_add(1, Ordering::Relaxed);
    // SAFETY: taken out again before `case` goes away
    let case: &'static dyn Fn() -> (&'static str, String, Value) = unsafe { std::mem::transmute(case) };
    *slot.case.lock().unwrap() = Some(Busy(case));
    let r = guarded(f);
    *slot.case.lock().unwrap() = None;
    r
}

extern "C" fn aborted(_: libc::c_int) {
    CRASHED.store(SLOT.get().max(1), Ordering::SeqCst);
    // the watchdog ends the process
    for _ in 0..600 {
        unsafe { libc::usleep(100_000) };
    }
    unsafe { libc::_exit(3) }
}

fn report(slot: &Slot, what: &str) {
    let g = slot.case.lock().unwrap();
    if let Some(b) = &*g {
        // SAFETY: the owner is still inside `on`
        let (kind, subject, case) = unsafe { (*b.0)() };
        crate::props::bail(&Violation { kind: kind.into(), subject, msg: what.into(), case });
    }
}

/// CPU seconds a thread has used.
fn cpu(tid: i32) -> u64 {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_ascii_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

const ENDLESS: u64 = 60;

/// A thread that was aborted or has spent a minute of processor time on a single case is a
/// violation. Nothing finished for five minutes otherwise: give up without a verdict.
pub fn watchdog() {
    // stack exhaustion, exhausted memory and panics while panicking all end in abort()
    unsafe { libc::signal(libc::SIGABRT, aborted as extern "C" fn(libc::c_int) as libc::sighandler_t) };
    std::thread::spawn(|| {
        let ballast = vec![1u8; 32 << 20];
        let mut last = (TICK.load(Ordering::Relaxed), 0);
        // turn and processor time when it was first seen
        let mut since: Vec<(u64, u64)> = vec![(0, 0); SLOTS.len()];
        let mut ballast = Some(ballast);
        for round in 1u64.. {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let c = CRASHED.load(Ordering::SeqCst);
            if c > 0 {
                ballast.take();
                report(&SLOTS[c - 1], "the process is aborted (stack or memory exhausted, or a panic while panicking)");
                eprintln!("ERROR: aborted");
                unsafe { libc::_exit(4) }
            }
            if round % 20 != 0 {
                continue;
            }
            let t = TICK.load(Ordering::Relaxed);
            last = if t == last.0 { (t, last.1 + 1) } else { (t, 0) };
            for (slot, seen) in SLOTS.iter().zip(&mut since).take(TAKEN.load(Ordering::Relaxed)) {
                let (turn, tid) = (slot.turn.load(Ordering::Relaxed), slot.tid.load(Ordering::Relaxed));
                let used = cpu(tid);
                if turn != seen.0 {
                    *seen = (turn, used);
                } else if used >= seen.1 + ENDLESS && slot.turn.load(Ordering::Relaxed) == turn {
                    report(slot, &format!("not finished after {ENDLESS} s of processor time"));
                }
            }
            if last.1 >= 60 {
                eprintln!("ERROR: no case finished for 300 s");
                std::process::exit(3);
            }
        }
    });
}

const MAX_SHRINK: usize = 1500;
const SAMPLES: usize = 12;

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() > 1500 { json!(format!("{}…", s.chars().take(1500).collect::<String>())) } else { v }
}

/// One subject's local results, merged at the end.
pub struct Local<'a> {
    ctx: &'a Ctx,
    kind: &'static str,
    subject: String,
    st: Stats,
}

impl<'a> Local<'a> {
    pub fn new(ctx: &'a Ctx, kind: &'static str, subject: &str) -> Self {
        Self { ctx, kind, subject: subject.into(), st: Stats::default() }
    }
    /// Evaluate a case and count it; true if it was a violation, or time is up.
    pub fn judge<C: Serialize>(&mut self, id: u64, case: impl Fn() -> C, test: impl FnOnce() -> Res) -> bool {
        if self.ctx.over() {
            return true;
        }
        let r = on(&|| (self.kind, self.subject.clone(), json!(case())), test);
        self.eval(id, case, r)
    }
    /// Count an evaluation; true if it was a violation.
    pub fn eval<C: Serialize>(&mut self, id: u64, case: impl FnOnce() -> C, r: Res) -> bool {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.st.evaluations += 1;
        match r {
            Ok(s) => {
                if s.nontrivial && self.st.distinct.insert(id) && self.st.samples.is_empty() {
                    self.st.samples.push(json!({"kind": self.kind, "subject": self.subject, "case": clip(json!(case()))}));
                }
                for l in s.labels {
                    *self.st.labels.entry(l.into()).or_default() += 1;
                }
                if let Some(k) = s.known {
                    *self.st.known.entry(k).or_default() += 1;
                }
                false
            }
            Err(msg) => {
                FAILED.store(true, Ordering::Relaxed);
                self.st.violations.push(Violation {
                    kind: self.kind.into(),
                    subject: self.subject.clone(),
                    msg,
                    case: json!(case()),
                });
                true
            }
        }
    }
}

impl Drop for Local<'_> {
    fn drop(&mut self) {
        let mut g = self.ctx.stats.lock().unwrap();
        let l = std::mem::take(&mut self.st);
        g.evaluations += l.evaluations;
        let k = hash(&(self.kind, &self.subject));
        g.distinct.extend(l.distinct.into_iter().map(|d| d ^ k));
        for (k, n) in l.labels {
            *g.labels.entry(k).or_default() += n;
        }
        for (k, n) in l.known {
            *g.known.entry(k).or_default() += n;
        }
        *g.per_kind.entry(self.kind.into()).or_default() += l.evaluations;
        g.samples.extend(l.samples);
        g.violations.extend(l.violations);
    }
}

pub fn runner(seed: u64, prop: &str, kind: &str, subject: &str) -> TestRunner {
    let mut bytes = [0u8; 32];
    for (i, c) in bytes.chunks_mut(8).enumerate() {
        // FNV-1a: stable across toolchains
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for b in prop.bytes().chain([0]).chain(kind.bytes()).chain([0]).chain(subject.bytes()).chain([i as u8]) {
            h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
        }
        c.copy_from_slice(&h.to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    )
}

/// Generate `cases` cases from `strat`, run `test` on each, shrink the first failure.
pub fn search<C>(
    ctx: &Ctx,
    kind: &'static str,
    subject: &str,
    strat: &BoxedStrategy<C>,
    cases: u32,
    test: impl Fn(&C) -> Res,
) where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned,
{
    let mut l = Local::new(ctx, kind, subject);
    let mut run = runner(ctx.seed, ctx.prop, kind, subject);
    for _ in 0..cases.saturating_mul(crate::strat::worth(subject)) {
        if ctx.over() {
            break;
        }
        let mut tree = match strat.new_tree(&mut run) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("ERROR: generator: {e}");
                std::process::exit(3);
            }
        };
        let c = tree.current();
        let r = on(&|| (kind, subject.to_string(), json!(c)), || test(&c));
        let id = hash(&format!("{c:?}"));
        if r.is_ok() {
            l.eval(id, || c.clone(), r);
            continue;
        }
        // shrink
        let mut best = (c, r);
        let mut n = 0;
        let since = Instant::now();
        if tree.simplify() {
            loop {
                n += 1;
                if n > MAX_SHRINK || since.elapsed().as_secs() > 40 {
                    break;
                }
                TICK.fetch_add(1, Ordering::Relaxed);
                let c = tree.current();
                let r = on(&|| (kind, subject.to_string(), json!(c)), || test(&c));
                if r.is_err() {
                    best = (c, r);
                    if !tree.simplify() {
                        break;
                    }
                } else if !tree.complicate() {
                    break;
                }
            }
        }
        l.eval(id, || best.0.clone(), best.1);
        break;
    }
}

// ------------------------------------------------------------- reporting

pub fn save_replay(prop: &str, v: &Violation) -> String {
    let dir = "/verif/replays";
    let _ = std::fs::create_dir_all(dir);
    let doc = json!({"property": prop, "kind": v.kind, "subject": v.subject, "message": v.msg, "case": v.case});
    let path = format!("{dir}/{prop}-{}-{}-{:08x}.json", v.kind, v.subject.replace(['/', ' '], "_"), hash(&doc.to_string()) as u32);
    let _ = std::fs::write(&path, doc.to_string());
    path
}

pub fn finish(ctx: &Ctx, rule: &str, assumptions: &[&str], findings: &BTreeMap<String, String>) -> i32 {
    let mut st = ctx.stats.lock().unwrap();
    let mut violations = std::mem::take(&mut st.violations);
    violations.sort_by(|a, b| (&a.kind, &a.subject, a.case.to_string().len()).cmp(&(&b.kind, &b.subject, b.case.to_string().len())));
    // A known finding that the file does not list is a violation.
    for (k, n) in &st.known {
        if let Some(d) = findings.get(k) {
            println!("KNOWN-FINDING: property={} {k}: {d} ({n} cases)", ctx.prop);
        } else {
            violations.push(Violation {
                kind: "finding".into(),
                subject: k.clone(),
                msg: format!("{k}: not listed in known_findings.txt"),
                case: Value::Null,
            });
        }
    }
    let samples: Vec<Value> = {
        let mut s: Vec<&Value> = st.samples.iter().collect();
        s.sort_by_key(|v| v.to_string());
        let step = (s.len() / SAMPLES).max(1);
        s.into_iter().step_by(step).take(SAMPLES).cloned().collect()
    };
    let ev = json!({
        "property": ctx.prop,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": rule,
            "samples": samples,
            "labels": st.labels,
            "evaluations_by_check": st.per_kind,
            "known_findings_seen": st.known,
        },
        "assumptions": assumptions,
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", ctx.prop), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("harness: write evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, {} violations",
        ctx.prop,
        st.evaluations,
        st.distinct.len(),
        ctx.start.elapsed().as_secs_f64(),
        violations.len()
    );
    for (i, v) in violations.iter().enumerate() {
        let path = save_replay(ctx.prop, v);
        if i < 10 {
            println!("VIOLATION property={} replay={path}", ctx.prop);
            println!("  {} / {}: {}", v.kind, v.subject, v.msg.chars().take(600).collect::<String>());
        }
    }
    i32::from(!violations.is_empty())
}
