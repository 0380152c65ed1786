//! Running generated cases: seeds, shrinking, statistics, replay.
use crate::codec::Codec;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::cell::{OnceCell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Env<'a> {
    pub codec: &'a dyn Codec,
    pub thorough: bool,
    pub shard: usize,
    pub shards: usize,
    /// C15: asks the other configurations
    pub peers: Option<&'a dyn crate::props::c15::Peers>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub exhaustive_parts: Vec<String>,
    pub parts: BTreeMap<String, u64>,
}

/// What one evaluation reports about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

#[derive(Debug)]
pub struct Failure {
    pub part: String,
    pub case: Value,
    pub message: String,
    pub shown: String,
}

pub trait Case: Clone + Debug + Hash + Serialize + DeserializeOwned + 'static {}
impl<T: Clone + Debug + Hash + Serialize + DeserializeOwned + 'static> Case for T {}

type RunFn = Box<dyn Fn(&Env, &mut Stats, [u8; 32], u32) -> Result<(), Failure>>;
type ReplayFn = Box<dyn Fn(&Env, Value) -> Result<(), String>>;
type BytesFn = Box<dyn Fn(&Env, &mut Stats, &[u8]) -> Result<(), Failure>>;

pub struct Part {
    pub name: &'static str,
    /// number of cases per shard in the quick tier
    pub cases: u32,
    pub run: RunFn,
    pub replay: ReplayFn,
    /// One case decided by these bytes (coverage-guided fuzzing).
    pub from_bytes: Option<BytesFn>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs `f`, turning a panic into Err.
pub fn guard<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

/// The evaluation under way, for the watchdog thread.
struct Current {
    part: &'static str,
    case: usize,
    show: unsafe fn(usize) -> (Value, String),
    since: Instant,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
static TRACE: OnceLock<std::path::PathBuf> = OnceLock::new();

unsafe fn show_at<T: Case>(p: usize) -> (Value, String) {
    // SAFETY: the caller holds CURRENT's lock, and `one` clears it under that lock before the
    // case goes away; cases have no interior mutability.
    let t = &*(p as *const T);
    (
        serde_json::to_value(t).unwrap_or(Value::Null),
        short(format!("{t:?}")),
    )
}

/// Write every case to this file before it is evaluated (to find out what kills the process).
pub fn trace_to(p: std::path::PathBuf) {
    let _ = TRACE.set(p);
}

/// Calls `on_stuck` once if one evaluation takes longer than `limit` or memory passes `rss`.
pub fn watchdog(limit: Duration, rss: usize, on_stuck: impl Fn(Failure) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let held = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split(' ').nth(1)?.parse::<usize>().ok())
            .unwrap_or(0)
            * 4096;
        let g = CURRENT.lock().unwrap();
        if let Some(c) = &*g {
            let message = if c.since.elapsed() > limit {
                format!("no result after {} s", limit.as_secs())
            } else if held > rss {
                format!("memory use reached {} MiB", held >> 20)
            } else {
                continue;
            };
            // SAFETY: see show_at
            let (case, shown) = unsafe { (c.show)(c.case) };
            on_stuck(Failure {
                part: c.part.to_string(),
                case,
                message,
                shown,
            });
            return;
        }
    });
}

/// Evaluates one case under the eye of the watchdog.
fn watched<T: Case, R>(part: &'static str, case: &T, f: impl FnOnce() -> R) -> R {
    if let Some(p) = TRACE.get() {
        let v =
            serde_json::json!({"part": part, "case": case, "shown": short(format!("{case:?}"))});
        let _ = std::fs::write(p, v.to_string());
    }
    *CURRENT.lock().unwrap() = Some(Current {
        part,
        case: std::ptr::from_ref(case) as usize,
        show: show_at::<T>,
        since: Instant::now(),
    });
    let r = f();
    *CURRENT.lock().unwrap() = None;
    r
}

fn h<T: Hash>(part: &str, t: &T) -> u64 {
    // fixed keys: deterministic
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    part.hash(&mut s);
    t.hash(&mut s);
    s.finish()
}

pub fn short(s: String) -> String {
    if s.len() <= 600 {
        return s;
    }
    let mut i = 560;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}... ({} chars)", &s[..i], s.len())
}

fn one<T: Case>(
    name: &'static str,
    env: &Env,
    case: &T,
    test: fn(&Env, &T, &mut Obs) -> Result<(), String>,
    stats: &mut Stats,
) -> Result<(), String> {
    let mut obs = Obs::default();
    let r = watched(name, case, || guard(|| test(env, case, &mut obs)));
    stats.evaluations += 1;
    *stats.parts.entry(name.to_string()).or_default() += 1;
    for l in &obs.labels {
        match stats.labels.get_mut(*l) {
            Some(n) => *n += 1,
            None => {
                stats.labels.insert((*l).to_string(), 1);
            }
        }
    }
    if obs.nontrivial {
        let new = stats.nontrivial.insert(h(name, case));
        let n = stats.parts[name];
        if new && (n <= 3 || n.is_power_of_two()) && stats.samples.len() < 40 {
            stats
                .samples
                .push(format!("{name}: {}", short(format!("{case:?}"))));
        }
    }
    r
}

fn failure<T: Case>(name: &str, case: &T, message: String) -> Failure {
    Failure {
        part: name.to_string(),
        case: serde_json::to_value(case).unwrap(),
        shown: short(format!("{case:?}")),
        message,
    }
}

/// Randomly generated part.
pub fn part<T: Case>(
    name: &'static str,
    cases: u32,
    strategy: impl Fn(&Env) -> BoxedStrategy<T> + 'static,
    test: fn(&Env, &T, &mut Obs) -> Result<(), String>,
) -> Part {
    let strategy = Rc::new(strategy);
    let again = strategy.clone();
    let built: OnceCell<BoxedStrategy<T>> = OnceCell::new();
    Part {
        name,
        cases,
        from_bytes: Some(Box::new(move |env, stats, data| {
            let cfg = Config {
                failure_persistence: None,
                source_file: None,
                ..Config::default()
            };
            let rng = TestRng::from_seed(RngAlgorithm::PassThrough, data);
            let mut runner = TestRunner::new_with_rng(cfg, rng);
            let Ok(mut tree) = built.get_or_init(|| again(env)).new_tree(&mut runner) else {
                return Ok(());
            };
            let case = tree.current();
            let Err(mut message) = one(name, env, &case, test, stats) else {
                return Ok(());
            };
            let mut best = case;
            let until = Instant::now() + Duration::from_secs(30);
            let mut failing = true;
            while Instant::now() < until {
                let moved = if failing {
                    tree.simplify()
                } else {
                    tree.complicate()
                };
                if !moved {
                    break;
                }
                let case = tree.current();
                let r = watched(name, &case, || {
                    guard(|| test(env, &case, &mut Obs::default()))
                });
                failing = r.is_err();
                if let Err(m) = r {
                    message = m;
                    best = case;
                }
            }
            Err(failure(name, &best, message))
        })),
        run: Box::new(move |env, stats, seed, cases| {
            let cfg = Config {
                cases,
                failure_persistence: None,
                source_file: None,
                max_shrink_iters: 60_000,
                max_shrink_time: 30_000,
                max_global_rejects: 1_000_000,
                max_local_rejects: 1_000_000,
                verbose: 0,
                ..Config::default()
            };
            let mut runner =
                TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            let st = RefCell::new(std::mem::take(stats));
            let last = RefCell::new(String::new());
            let res = runner.run(&strategy(env), |case| {
                one(name, env, &case, test, &mut st.borrow_mut()).map_err(|m| {
                    *last.borrow_mut() = m.clone();
                    TestCaseError::fail(m)
                })
            });
            *stats = st.into_inner();
            match res {
                Ok(()) => Ok(()),
                Err(TestError::Fail(_, case)) => {
                    // message for the shrunk case, from a fresh evaluation
                    let msg = watched(name, &case, || {
                        guard(|| test(env, &case, &mut Obs::default()))
                    })
                    .err()
                    .unwrap_or_else(|| last.into_inner());
                    Err(failure(name, &case, msg))
                }
                Err(TestError::Abort(r)) => {
                    eprintln!("HARNESS-ERROR part {name}: generator aborted: {r}");
                    std::process::exit(3);
                }
            }
        }),
        replay: Box::new(move |env, v| {
            let case: T = serde_json::from_value(v).map_err(|e| format!("bad case: {e}"))?;
            watched(name, &case, || {
                guard(|| test(env, &case, &mut Obs::default()))
            })
        }),
    }
}

/// Exhaustively enumerated part (shared between shards).
pub fn enumerated<T: Case, I: Iterator<Item = T> + 'static>(
    name: &'static str,
    items: impl Fn(&Env) -> I + 'static,
    test: fn(&Env, &T, &mut Obs) -> Result<(), String>,
) -> Part {
    Part {
        name,
        cases: 0,
        from_bytes: None,
        run: Box::new(move |env, stats, _, _| {
            for (i, case) in items(env).enumerate() {
                if i % env.shards != env.shard {
                    continue;
                }
                one(name, env, &case, test, stats).map_err(|m| failure(name, &case, m))?;
            }
            stats.exhaustive_parts.push(name.to_string());
            Ok(())
        }),
        replay: Box::new(move |env, v| {
            let case: T = serde_json::from_value(v).map_err(|e| format!("bad case: {e}"))?;
            watched(name, &case, || {
                guard(|| test(env, &case, &mut Obs::default()))
            })
        }),
    }
}

/// For fuzzing only: the input itself (or a frame with that first byte and body) is the case.
pub fn bytes_part(
    name: &'static str,
    framed: bool,
    test: fn(&Env, &crate::model::Bin, &mut Obs) -> Result<(), String>,
) -> Part {
    use crate::model::Bin;
    let make = move |data: &[u8]| {
        Bin(match data.split_first() {
            Some((b, rest)) if framed => crate::refcodec::frame(*b, rest),
            _ => data.to_vec(),
        })
    };
    Part {
        name,
        cases: 0,
        run: Box::new(|_, _, _, _| Ok(())),
        replay: Box::new(move |env, v| {
            let case = serde_json::from_value(v).map_err(|e| format!("bad case: {e}"))?;
            watched(name, &case, || {
                guard(|| test(env, &case, &mut Obs::default()))
            })
        }),
        from_bytes: Some(Box::new(move |env, stats, data| {
            let mut best = data.to_vec();
            let Err(mut message) = one(name, env, &make(data), test, stats) else {
                return Ok(());
            };
            // remove ever smaller pieces, then clear bytes
            let until = Instant::now() + Duration::from_secs(30);
            let attempt = |b: Vec<u8>, best: &mut Vec<u8>, message: &mut String| {
                let case = make(&b);
                let r = watched(name, &case, || {
                    guard(|| test(env, &case, &mut Obs::default()))
                });
                let failed = r.is_err();
                if let Err(m) = r {
                    *message = m;
                    *best = b;
                }
                failed
            };
            let mut n = best.len() / 2;
            while n > 0 && Instant::now() < until {
                let mut at = 0;
                while at + n <= best.len() && Instant::now() < until {
                    let mut b = best.clone();
                    b.drain(at..at + n);
                    if !attempt(b, &mut best, &mut message) {
                        at += n;
                    }
                }
                n /= 2;
            }
            for i in 0..best.len() {
                if best[i] != 0 && Instant::now() < until {
                    let mut b = best.clone();
                    b[i] = 0;
                    attempt(b, &mut best, &mut message);
                }
            }
            Err(failure(name, &make(&best), message))
        })),
    }
}

pub struct PropertyDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
}

/// Seed for one shard of one part.
pub fn derive_seed(seed: u64, id: &str, part: &str, cfg: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        #[allow(deprecated)]
        let mut s = std::hash::SipHasher::new();
        (seed, id, part, cfg, shard, i).hash(&mut s);
        c.copy_from_slice(&s.finish().to_le_bytes());
    }
    out
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
