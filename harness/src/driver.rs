//! Runs the scenarios of a property: seeds them, runs them on several threads,
//! watches for deadlock and livelock, and collects what was observed.
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::rng::mix;

/// What a scenario that held reports about itself.
#[derive(Default)]
pub struct Seen {
    /// Signature of what was observed: two scenarios with the same signature
    /// count once.
    pub sig: u64,
    /// Whether the scenario exercised the property beyond a trivial case.
    pub nontrivial: bool,
    /// Human-readable description of the case.
    pub sample: Option<Value>,
    /// Event counters, summed over scenarios.
    pub counts: Vec<(&'static str, u64)>,
}

/// Why a scenario did not hold.
pub enum Bad {
    /// The property is violated: what was observed.
    Violation(String),
    /// The scenario could not be carried out (an error of the harness or the
    /// environment).
    Inconclusive(String),
}

pub type Res = Result<Seen, Bad>;

impl From<String> for Bad {
    fn from(s: String) -> Self {
        Bad::Violation(s)
    }
}
impl From<&str> for Bad {
    fn from(s: &str) -> Self {
        Bad::Violation(s.to_string())
    }
}
/// An unexpected error of the code under test: the callers use `?` only where
/// no error may occur.
impl From<anyhow::Error> for Bad {
    fn from(e: anyhow::Error) -> Self {
        Bad::Violation(format!("unexpected error: {e:#}"))
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::driver::Bad::Violation(format!($($fmt)*)));
        }
    };
}

pub type ScenarioFn = fn(u64, &Ctx) -> Res;

#[derive(Clone)]
pub struct Ctx {
    pub thorough: bool,
    /// Index of the scenario in this run (its seed derives from it).
    pub index: u64,
}

/// A family of scenarios of a property.
pub struct Family {
    pub name: &'static str,
    pub run: ScenarioFn,
    /// Number of scenarios per quick run, and factor for a thorough one.
    pub quick: u64,
    pub thorough: u64,
    /// How many run at a time.
    pub threads: usize,
    /// Wall-clock cap for the family, in seconds (quick; thorough is 15 times
    /// that): stops starting scenarios, never a verdict.
    pub secs: u64,
    /// Least number of scenarios for the run to count.
    pub min: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    pub assumptions: Vec<&'static str>,
    /// Panics with a location and message containing these are part of the
    /// scenarios.
    pub allowed_panics: Vec<&'static str>,
}

#[derive(Clone)]
struct Viol {
    family: String,
    seed: u64,
    what: String,
}

#[derive(Default)]
struct Totals {
    evals: u64,
    per_family: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: Vec<Value>,
    counts: BTreeMap<&'static str, u64>,
    violations: Vec<Viol>,
    inconclusive: Vec<String>,
}

/// Library panics, as recorded by the panic hook.
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let library = loc.contains("paladin-core/src")
            || loc.contains("paladin-opkind-derive/src")
            || loc.contains("/repo/");
        if library {
            PANICS
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push(format!("{loc}: {msg}"));
        } else if !msg.contains("pv-intended") {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Set while scenarios are running that wait for the outside world in a way
/// that the quiescence monitor must not judge.
pub static QUIESCENCE_OFF: AtomicU64 = AtomicU64::new(0);

struct ThreadState {
    running: Option<(String, u64)>,
    tid: i32,
    cpu0: u64,
}

fn gettid() -> i32 {
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str()?.parse().ok()))
        .unwrap_or(0)
}

/// (state, utime + stime, voluntary + involuntary switches) of a thread.
fn task_stat(tid: i32) -> Option<(char, u64)> {
    let s = fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((
        f[0].chars().next()?,
        f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?,
    ))
}

/// Processor time of the process.
fn process_ticks() -> u64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}

fn switches(tid: i32) -> u64 {
    fs::read_to_string(format!("/proc/self/task/{tid}/status"))
        .map(|s| {
            s.lines()
                .filter(|l| l.contains("ctxt_switches"))
                .filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok())
                .sum()
        })
        .unwrap_or(0)
}

/// Fingerprint of the activity of all threads but this one, or `None` if any
/// of them is not asleep.
fn activity(me: i32) -> Option<u64> {
    let mut h = 0;
    for e in fs::read_dir("/proc/self/task").ok()? {
        let tid: i32 = e.ok()?.file_name().to_str()?.parse().ok()?;
        if tid == me {
            continue;
        }
        let (state, cpu) = task_stat(tid)?;
        if state != 'S' {
            return None;
        }
        h = mix(h, mix(tid as u64, mix(cpu, switches(tid))));
    }
    Some(h)
}

/// Blocks until every other thread of the process has been asleep, without
/// consuming any processor time or being scheduled, for `secs` seconds worth of
/// samples, or `done` is set. Returns whether the process was quiescent.
pub fn wait_quiescent(secs: u64, done: &AtomicBool) -> bool {
    let me = gettid();
    let need = secs * 20;
    let mut n = 0;
    let mut last = None;
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_millis(50));
        let a = activity(me);
        if a.is_some() && a == last {
            n += 1;
            if n >= need && !done.load(Ordering::SeqCst) {
                return true;
            }
        } else {
            n = 0;
        }
        last = a;
    }
    false
}

const QUIESCENT_SECS: u64 = 16;
/// The same, for threads that wake up for short timers while virtual time
/// stands still.
const IDLE_SECS: u64 = 60;
/// Processor time of the scenario's thread that no scenario comes near to.
const LIVELOCK_TICKS: u64 = 150 * 100;
/// Processor time of the whole process without a scenario being completed,
/// that all the scenarios which run at once do not come near to.
const SPIN_TICKS: u64 = 300 * 100;
/// Seconds without a scenario being completed after which those that are still
/// running are not awaited, if there are violations already.
const UNAWAITED_SECS: u64 = 40;

pub fn run(prop: &Prop, thorough: bool, seed: u64, one: Option<(String, u64, u64)>) -> i32 {
    let t0 = Instant::now();
    let totals = Arc::new(Mutex::new(Totals::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let states: Arc<Mutex<Vec<Arc<Mutex<ThreadState>>>>> = Default::default();
    let finish_lock = Arc::new(Mutex::new(false));

    // The deadlock and livelock monitor. It ends the process itself, as the
    // scenario cannot be unwound.
    {
        let (totals, states, stop) = (totals.clone(), states.clone(), stop.clone());
        let prop_id = prop.id.to_string();
        let meta = (prop.level, prop.rule, prop.assumptions.clone());
        let finish_lock = finish_lock.clone();
        std::thread::spawn(move || {
            let me = gettid();
            let (mut n, mut last) = (0, None);
            // Samples, and those with all threads asleep, since a scenario was
            // started or completed.
            let (mut samples, mut calm, mut evals) = (0u64, 0u64, 0);
            // The same whatever is being waited for: processor time and clock.
            let (mut done, mut spent, mut when) = (0, 0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let mut stuck = None;
                let running: Vec<(String, u64, i32, u64)> = states
                    .lock()
                    .unwrap()
                    .iter()
                    .filter_map(|s| {
                        let s = s.lock().unwrap();
                        s.running.clone().map(|(f, x)| (f, x, s.tid, s.cpu0))
                    })
                    .collect();
                if running.is_empty() {
                    n = 0;
                    continue;
                }
                for (f, x, tid, cpu0) in &running {
                    if let Some((_, cpu)) = task_stat(*tid) {
                        if cpu.saturating_sub(*cpu0) > LIVELOCK_TICKS {
                            stuck = Some((
                                f.clone(),
                                *x,
                                format!("livelock: the scenario consumed {} s of processor time without completing", LIVELOCK_TICKS / 100),
                            ));
                        }
                    }
                }
                let (now, found) = {
                    let t = totals.lock().unwrap_or_else(|e| e.into_inner());
                    (t.evals, !t.violations.is_empty())
                };
                let cpu = process_ticks();
                if now != done {
                    if std::env::var_os("PV_STATS").is_some() {
                        eprintln!("{} ticks, {} ms", cpu.saturating_sub(spent), when.elapsed().as_millis());
                    }
                    (done, spent, when) = (now, cpu, Instant::now());
                }
                if cpu.saturating_sub(spent) > SPIN_TICKS && std::env::var_os("PV_PERCENT").is_none() {
                    let (f, x, ..) = running[0].clone();
                    stuck = Some((
                        f,
                        x,
                        format!(
                            "livelock: {} scenario(s) used {} s of processor time without one completing",
                            running.len(),
                            SPIN_TICKS / 100
                        ),
                    ));
                }
                if found && when.elapsed().as_secs() >= UNAWAITED_SECS {
                    let mut fin = finish_lock.lock().unwrap();
                    if *fin {
                        return;
                    }
                    *fin = true;
                    stop.store(true, Ordering::SeqCst);
                    let t = totals.lock().unwrap_or_else(|e| e.into_inner());
                    std::process::exit(emit(&prop_id, meta.0, meta.1, &meta.2, thorough, seed, &t, &[], t0));
                }
                let a = activity(me);
                if a.is_some() && a == last && QUIESCENCE_OFF.load(Ordering::SeqCst) == 0 {
                    n += 1;
                } else {
                    n = 0;
                }
                last = a;
                let now = totals.lock().unwrap_or_else(|e| e.into_inner()).evals;
                if now != evals || QUIESCENCE_OFF.load(Ordering::SeqCst) != 0 {
                    (evals, samples, calm) = (now, 0, 0);
                }
                samples += 1;
                calm += a.is_some() as u64;
                if samples >= IDLE_SECS * 10 && calm * 20 >= samples * 19 {
                    let (f, x, ..) = running[0].clone();
                    stuck = Some((
                        f,
                        x,
                        format!("no progress: idle for {IDLE_SECS} s with {} scenario(s) unfinished", running.len()),
                    ));
                }
                if n >= QUIESCENT_SECS * 10 {
                    let (f, x, ..) = running[0].clone();
                    stuck = Some((
                        f,
                        x,
                        format!("deadlock: all threads have been asleep for {QUIESCENT_SECS} s with {} scenario(s) unfinished", running.len()),
                    ));
                }
                if let Some((family, seed_, what)) = stuck {
                    let mut fin = finish_lock.lock().unwrap();
                    if *fin {
                        return;
                    }
                    *fin = true;
                    stop.store(true, Ordering::SeqCst);
                    let mut t = totals.lock().unwrap_or_else(|e| e.into_inner());
                    t.violations.push(Viol { family, seed: seed_, what });
                    t.evals += 1;
                    let code = emit(&prop_id, meta.0, meta.1, &meta.2, thorough, seed, &t, &[], t0);
                    std::process::exit(code);
                }
            }
        });
    }

    for fam in &prop.families {
        if let Some((f, ..)) = &one {
            if f != fam.name {
                continue;
            }
        }
        if one.is_none() && std::env::var("PV_SKIP").is_ok_and(|x| x.split(',').any(|x| x == fam.name)) {
            continue;
        }
        let (count, secs) = if thorough {
            (fam.quick * fam.thorough, fam.secs * 15)
        } else {
            (fam.quick, fam.secs)
        };
        // Under a sanitizer, fewer scenarios are run.
        let count = std::env::var("PV_PERCENT").map_or(count, |p| {
            (count * p.parse::<u64>().expect("PV_PERCENT")).div_ceil(100)
        });
        let next = Arc::new(AtomicU64::new(0));
        let fstart = Instant::now();
        let threads = if one.is_some() { 1 } else { fam.threads };
        let handles: Vec<_> = (0..threads)
            .map(|_| {
                let (totals, stop, next, states) =
                    (totals.clone(), stop.clone(), next.clone(), states.clone());
                let (name, runf) = (fam.name, fam.run);
                let fam_seed = mix(seed, name.bytes().fold(7, |a, b| mix(a, b as u64)));
                let allowed = prop.allowed_panics.clone();
                let one = one.clone();
                let min = fam.min;
                std::thread::spawn(move || {
                    let st = Arc::new(Mutex::new(ThreadState {
                        running: None,
                        tid: gettid(),
                        cpu0: 0,
                    }));
                    states.lock().unwrap().push(st.clone());
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let s = match &one {
                            Some((_, s, reps)) => {
                                if i >= *reps {
                                    break;
                                }
                                *s
                            }
                            None => {
                                if i >= count
                                    || (i >= min && fstart.elapsed().as_secs() >= secs)
                                {
                                    break;
                                }
                                mix(fam_seed, i)
                            }
                        };
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        {
                            let mut g = st.lock().unwrap();
                            g.cpu0 = task_stat(g.tid).map(|x| x.1).unwrap_or(0);
                            g.running = Some((name.to_string(), s));
                        }
                        let ctx = Ctx { thorough, index: i };
                        let r = catch_unwind(AssertUnwindSafe(|| runf(s, &ctx)));
                        st.lock().unwrap().running = None;
                        let lib_panics: Vec<String> = std::mem::take(
                            &mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()),
                        )
                        .into_iter()
                        // When an executor is shut down, its tasks are dropped in any order, and a
                        // worker's loop may see its command handler gone before it is itself dropped.
                        .filter(|p| !p.contains("IPC channel closed"))
                        .filter(|p| !allowed.iter().any(|a| p.contains(a)))
                        .collect();
                        let mut t = totals.lock().unwrap_or_else(|e| e.into_inner());
                        t.evals += 1;
                        *t.per_family.entry(name.to_string()).or_default() += 1;
                        let mut viol = None;
                        match r {
                            Ok(Ok(seen)) => {
                                if seen.nontrivial {
                                    t.sigs.insert(mix(seen.sig, fam_seed));
                                }
                                for (k, v) in seen.counts {
                                    *t.counts.entry(k).or_default() += v;
                                }
                                if let Some(sample) = seen.sample {
                                    let n = t
                                        .samples
                                        .iter()
                                        .filter(|x| x["family"] == name)
                                        .count();
                                    if n < 2 && seen.nontrivial {
                                        t.samples.push(json!({
                                            "family": name, "seed": format!("{s:#x}"), "case": sample}));
                                    }
                                }
                            }
                            Ok(Err(Bad::Violation(what))) => viol = Some(what),
                            Ok(Err(Bad::Inconclusive(what))) => t.inconclusive.push(what),
                            Err(p) => {
                                let msg = p
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                if lib_panics.is_empty() {
                                    t.inconclusive.push(format!("harness panic: {msg}"));
                                }
                            }
                        }
                        if viol.is_none() {
                            if let Some(p) = lib_panics.first() {
                                viol = Some(format!("the library panicked: {p}"));
                            }
                        }
                        if let Some(what) = viol {
                            t.violations.push(Viol {
                                family: name.to_string(),
                                seed: s,
                                what,
                            });
                            if t.violations.len() >= 3 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                })
            })
            .collect();
        for h in handles {
            _ = h.join();
        }
    }
    let mut fin = finish_lock.lock().unwrap();
    *fin = true;
    let t = totals.lock().unwrap_or_else(|e| e.into_inner());
    let fams: Vec<(&str, u64)> = prop.families.iter().map(|f| (f.name, f.min)).collect();
    let fams = if one.is_some() { vec![] } else { fams };
    emit(
        prop.id,
        prop.level,
        prop.rule,
        &prop.assumptions,
        thorough,
        seed,
        &t,
        &fams,
        t0,
    )
}

#[allow(clippy::too_many_arguments)]
fn emit(
    id: &str,
    level: &str,
    rule: &str,
    assumptions: &[&str],
    thorough: bool,
    seed: u64,
    t: &Totals,
    fams: &[(&str, u64)],
    t0: Instant,
) -> i32 {
    let out = std::env::var("PV_OUT").unwrap_or_else(|_| "/verif/out".into());
    _ = fs::create_dir_all(&out);
    let mut inconclusive = t.inconclusive.clone();
    for (f, min) in fams {
        let n = t.per_family.get(*f).copied().unwrap_or(0);
        if n < *min && std::env::var_os("PV_PERCENT").is_none() && t.violations.is_empty() {
            inconclusive.push(format!("family {f}: only {n} of at least {min} scenarios"));
        }
    }
    if let Ok(path) = std::env::var("PV_EVIDENCE") {
        let mut samples = t.samples.clone();
        if samples.is_empty() {
            samples.push(json!({"note": "no non-trivial scenario completed"}));
        }
        let ev = json!({
            "property": id,
            "tier": if thorough { "thorough" } else { "quick" },
            "seed": seed,
            "level": level,
            "coverage": {
                "evaluations": t.evals,
                "distinct_nontrivial": t.sigs.len(),
                "rule": rule,
                "samples": samples,
                "scenarios_per_family": t.per_family,
                "observed": t.counts,
                "inconclusive": inconclusive.len(),
            },
            "assumptions": assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": t.violations.len(),
        });
        if fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            inconclusive.push("cannot write the evidence file".into());
        }
    }
    for (i, v) in t.violations.iter().enumerate() {
        let path = format!("{out}/{id}-{seed}-{i}.json");
        _ = fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": id, "family": v.family, "seed": v.seed.to_string(),
                "thorough": thorough, "what": v.what,
            }))
            .unwrap(),
        );
        println!("violation [{}] seed {:#x}: {}", v.family, v.seed, v.what);
        println!("VIOLATION property={id} replay={path}");
    }
    println!(
        "{id}: {} scenarios, {} distinct, {} violations, {} inconclusive, {:.1} s",
        t.evals,
        t.sigs.len(),
        t.violations.len(),
        inconclusive.len(),
        t0.elapsed().as_secs_f64()
    );
    println!("{id}: observed {:?}", t.counts);
    if !t.violations.is_empty() {
        return 1;
    }
    if !inconclusive.is_empty() {
        for i in inconclusive.iter().take(5) {
            println!("inconclusive: {i}");
        }
        return 2;
    }
    0
}
