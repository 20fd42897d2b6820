//! Generic property runner: deterministic generation (proptest, seed from VERIF_SEED), sharded over a
//! fixed number of threads, shrinking, replay files, evidence counters, known findings.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

pub const SHARDS: u32 = 8;

/// What one evaluation observed about its case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// extra sub-evaluations (texts tokenized, pairs compared, ...)
    pub steps: u64,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub type CheckResult = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub property: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub steps: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub slowest_ms: u64,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.steps += o.steps;
        self.nontrivial += o.nontrivial;
        self.slowest_ms = self.slowest_ms.max(o.slowest_ms);
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Failure {
    pub case: Value,
    pub message: String,
}

type RunFn = Box<dyn Fn(&Ctx) -> (Stats, Option<Failure>)>;
type ReplayFn = Box<dyn Fn(&Value) -> Result<CheckResult, String>>;

pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: RunFn,
    pub replay: ReplayFn,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = format!("panicked at {loc}: {msg}");
        // a panic that cannot unwind aborts the process: make sure its text is seen
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("{m}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// Run `f`, turning a panic into an Err with its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn trace_dir() -> Option<PathBuf> {
    std::env::var_os("PBT_TRACE").map(PathBuf::from)
}

/// A case that runs longer than this is reported as not finishing (cases take milliseconds).
const HANG_S: u64 = 240;

type Slots = Vec<Mutex<Option<(std::time::Instant, String)>>>;

/// Watch the case each shard is running; a case that does not finish is a failure of its own that
/// cannot be unwound, so it is reported from here.
fn watchdog(prop: &str, name: &str, seed: u64, slots: &Slots, done: &AtomicBool) {
    while !done.load(Ordering::SeqCst) {
        std::thread::park_timeout(std::time::Duration::from_millis(500));
        for s in slots {
            let cur = s.lock().unwrap().clone();
            if let Some((t, js)) = cur {
                if t.elapsed().as_secs() >= HANG_S {
                    let f = Failure {
                        case: serde_json::from_str(&js).unwrap(),
                        message: format!("the case did not finish within {HANG_S} s"),
                    };
                    let path = write_replay(prop, name, seed, &f);
                    println!("{}", f.message.chars().take(4000).collect::<String>());
                    println!("VIOLATION property={} replay={}", prop, path.display());
                    std::process::exit(1);
                }
            }
        }
    }
}

fn guarded<C>(check: &dyn Fn(&C, &mut Obs) -> CheckResult, c: &C, o: &mut Obs) -> CheckResult {
    match catch(|| check(c, o)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

/// Build a suite from a strategy and a check.
pub fn suite<C, S, F>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: S,
    check: F,
) -> Suite
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Fn() -> BoxedStrategy<C> + Sync + Send + Copy + 'static,
    F: Fn(&C, &mut Obs) -> CheckResult + Sync + Send + Copy + 'static,
{
    suite_sharded(name, rule, quick, thorough, SHARDS, strategy, check)
}

/// The same over a given number of threads, for checks that cannot run side by side.
pub fn suite_sharded<C, S, F>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    shards: u32,
    strategy: S,
    check: F,
) -> Suite
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Fn() -> BoxedStrategy<C> + Sync + Send + Copy + 'static,
    F: Fn(&C, &mut Obs) -> CheckResult + Sync + Send + Copy + 'static,
{
    let run = move |ctx: &Ctx| {
        let total = match ctx.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        // for measurements (coverage)
        let div: u32 = std::env::var("PBT_DIV").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let total = total.div_ceil(div);
        let per = total.div_ceil(shards);
        let results: Mutex<Vec<(u32, Stats, Option<Failure>)>> = Mutex::new(vec![]);
        let slots: Slots = (0..shards).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let left = std::sync::atomic::AtomicU32::new(shards);
        std::thread::scope(|sc| {
            let dog = {
                let (slots, done) = (&slots, &done);
                let (prop, seed) = (ctx.property.clone(), ctx.seed);
                sc.spawn(move || watchdog(&prop, name, seed, slots, done)).thread().clone()
            };
            for shard in 0..shards {
                let results = &results;
                let prop = ctx.property.clone();
                let seed = ctx.seed;
                let (slots, done, left, dog) = (&slots, &done, &left, dog.clone());
                let go = move || {
                    let r = run_shard(&prop, name, seed, shard, per, &strategy, &check, &slots[shard as usize]);
                    results.lock().unwrap().push((shard, r.0, r.1));
                    if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                        dog.unpark();
                    }
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, go)
                    .unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut stats = Stats::default();
        let mut fail = None;
        for (_, s, f) in rs {
            stats.merge(s);
            if fail.is_none() {
                fail = f;
            }
        }
        (stats, fail)
    };
    let replay = move |v: &Value| -> Result<CheckResult, String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let mut o = Obs::default();
        Ok(guarded(&check, &c, &mut o))
    };
    Suite { name, rule, run: Box::new(run), replay: Box::new(replay) }
}

fn run_shard<C, S, F>(
    prop: &str,
    name: &str,
    seed: u64,
    shard: u32,
    cases: u32,
    strategy: &S,
    check: &F,
    slot: &Mutex<Option<(std::time::Instant, String)>>,
) -> (Stats, Option<Failure>)
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Fn() -> BoxedStrategy<C>,
    F: Fn(&C, &mut Obs) -> CheckResult,
{
    let mix = hash_of(&format!("{prop}/{name}/{seed}/{shard}"));
    let cfg = Config {
        cases,
        rng_seed: RngSeed::Fixed(mix),
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 40_000,
        max_global_rejects: 1,
        ..Config::default()
    };
    let stats = std::cell::RefCell::new(Stats::default());
    let failed = std::cell::Cell::new(false);
    let trace = trace_dir();
    let mut runner = TestRunner::new(cfg);
    let st = strategy().prop_map(|c| c);
    let res = runner.run(&st, |c| {
        let js = serde_json::to_string(&c).unwrap();
        if let Some(d) = &trace {
            let _ = std::fs::write(d.join(format!("{name}.{shard}.json")), &js);
        }
        let mut o = Obs::default();
        *slot.lock().unwrap() = Some((std::time::Instant::now(), js.clone()));
        let r = guarded(check, &c, &mut o);
        let t = slot.lock().unwrap().take().map_or(0, |t| t.0.elapsed().as_millis() as u64);
        if t > 5000 && std::env::var_os("PBT_SLOW").is_some() {
            let _ = std::fs::write(format!("/tmp/slow.{name}.{shard}.{t}.json"), &js);
        }
        if !failed.get() {
            let m = &mut stats.borrow_mut().slowest_ms;
            *m = (*m).max(t);
        }
        if !failed.get() {
            let mut s = stats.borrow_mut();
            s.evaluations += 1;
            s.steps += o.steps;
            if o.nontrivial {
                s.nontrivial += 1;
                s.distinct.insert(hash_of(&js));
                if s.samples.len() < 2 && shard == 0 || s.samples.is_empty() {
                    let t: String = js.chars().take(600).collect();
                    s.samples.push(format!("[{name}] {t}"));
                }
            }
            for l in o.labels {
                *s.labels.entry(format!("{name}:{l}")).or_default() += 1;
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                failed.set(true);
                Err(TestCaseError::fail(m))
            }
        }
    });
    let fail = match res {
        Ok(()) => None,
        Err(TestError::Fail(_, c)) => {
            let mut o = Obs::default();
            let m = guarded(check, &c, &mut o).err().unwrap_or_else(|| {
                "failed during the search but not when re-run on the shrunk case".to_string()
            });
            Some(Failure { case: serde_json::to_value(&c).unwrap(), message: m })
        }
        Err(TestError::Abort(r)) => {
            eprintln!("generator aborted: {r}");
            std::process::exit(2);
        }
    };
    (stats.into_inner(), fail)
}

/// A listed genuine defect that is recorded rather than repaired: a fixed case and the exact
/// signature with which it fails.
pub struct Known {
    pub sig: &'static str,
    pub what: &'static str,
    /// Ok(true): still fails with exactly this signature; Ok(false): no longer fails;
    /// Err: fails in some other way (a violation).
    pub probe: fn() -> Result<bool, String>,
}

pub struct Property {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    pub known: Vec<Known>,
    pub assumptions: Vec<&'static str>,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn listed_known(id: &str) -> HashSet<String> {
    let p = verif_dir().join("known_findings.txt");
    let mut out = HashSet::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.split_whitespace();
            if it.next() == Some(&format!("property={id}")[..]) {
                if let Some(s) = it.next().and_then(|s| s.strip_prefix("sig=")) {
                    out.insert(s.to_string());
                }
            }
        }
    }
    out
}

pub fn write_replay(id: &str, suite: &str, seed: u64, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}.{}.json", suite.replace(" ", "-")));
    let v = json!({"property": id, "suite": suite, "seed": seed, "message": f.message, "case": f.case,
        "how": format!("/verif/run.sh replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

pub fn run_property(p: &Property, ctx: &Ctx) -> i32 {
    let t0 = std::time::Instant::now();
    let mut total = Stats::default();
    let mut violations = 0;
    let mut rules = vec![];
    let mut per_suite = BTreeMap::new();
    let only = std::env::var("PBT_SUITE").ok();
    for s in &p.suites {
        if only.as_deref().map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        // already decided, and slow: answer in time
        if violations > 0 && ctx.tier == Tier::Quick && t0.elapsed().as_secs() > 240 {
            eprintln!("[{}] suite {}: left out after a violation", p.id, s.name);
            continue;
        }
        let t = std::time::Instant::now();
        let (st, fail) = (s.run)(ctx);
        per_suite.insert(
            s.name.to_string(),
            json!({"evaluations": st.evaluations, "steps": st.steps, "nontrivial": st.nontrivial,
                   "distinct_nontrivial": st.distinct.len(), "slowest_case_ms": st.slowest_ms, "wall_s": t.elapsed().as_secs_f64()}),
        );
        eprintln!(
            "[{}] suite {}: {} cases ({} steps), {} distinct non-trivial, {:.1}s, slowest case {} ms",
            p.id, s.name, st.evaluations, st.steps, st.distinct.len(), t.elapsed().as_secs_f64(), st.slowest_ms
        );
        rules.push(format!("{}: {}", s.name, s.rule));
        total.evaluations += st.evaluations;
        total.steps += st.steps;
        total.nontrivial += st.nontrivial;
        total.distinct.extend(st.distinct);
        for (k, v) in st.labels {
            *total.labels.entry(k).or_default() += v;
        }
        total.samples.extend(st.samples.into_iter().take(2));
        if let Some(f) = fail {
            violations += 1;
            let path = write_replay(p.id, s.name, ctx.seed, &f);
            println!("{}", f.message.chars().take(4000).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
    }
    let listed = listed_known(p.id);
    for k in &p.known {
        total.evaluations += 1;
        match catch(k.probe).unwrap_or_else(Err) {
            Ok(true) if listed.contains(k.sig) => {
                println!("KNOWN-FINDING: property={} {} ({})", p.id, k.what, k.sig);
            }
            Ok(true) => {
                violations += 1;
                let f = Failure { case: json!({"known": k.sig}), message: k.what.to_string() };
                let path = write_replay(p.id, k.sig, ctx.seed, &f);
                println!("{}", k.what);
                println!("VIOLATION property={} replay={}", p.id, path.display());
            }
            Ok(false) => {}
            Err(m) => {
                violations += 1;
                let f = Failure { case: json!({"known": k.sig}), message: m.clone() };
                let path = write_replay(p.id, k.sig, ctx.seed, &f);
                println!("{m}");
                println!("VIOLATION property={} replay={}", p.id, path.display());
            }
        }
    }
    let ev = json!({
        "property": p.id,
        "tier": if ctx.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "steps": total.steps,
            "distinct_nontrivial": total.distinct.len(),
            "rule": rules.join(" | "),
            "samples": total.samples,
            "classes": total.labels,
            "suites": per_suite,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        std::fs::write(
            dir.join(format!("{}.json", p.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    } else {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
    }
    if violations > 0 {
        1
    } else {
        0
    }
}
