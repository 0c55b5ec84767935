//! Ledger of operation executions, keyed by the run an element belongs to.
//! Operations log here, at the boundary of the system under test.
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

use crate::rng::{mix, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Delay {
    None,
    /// Yield or spin for a few microseconds.
    Jitter,
    /// Sleep for a random time of up to the given number of microseconds.
    Sleep(u32),
    /// A few elements sleep much longer than the others.
    Straggler(u32),
}

#[derive(Clone, Debug)]
pub struct Exec {
    pub op: u32,
    pub stage: u32,
    pub idx: u64,
    /// For combinations: first and last index of both operands.
    pub ranges: Option<((u64, u64), (u64, u64))>,
    pub at: Instant,
    pub thread: u64,
}

pub struct Run {
    pub id: u64,
    pub seed: u64,
    pub delay: Delay,
    pub execs: Mutex<Vec<Exec>>,
    /// When the latest execution of each element ended.
    pub ends: Mutex<HashMap<u64, Instant>>,
    pub done: AtomicU64,
    pub combined: AtomicU64,
    pub running: AtomicUsize,
    pub max_running: AtomicUsize,
    pub closed: AtomicBool,
    pub problems: Mutex<Vec<String>>,
    gate: Mutex<Gate>,
    cond: Condvar,
    pub abort_seen: AtomicUsize,
    /// Called with the execution just logged, on the worker.
    pub notify: tokio::sync::Notify,
}

#[derive(Default)]
struct Gate {
    /// Operations of these elements wait for the gate to be opened for them.
    open: bool,
    tickets: u64,
    waiting: usize,
}

static RUNS: Mutex<Option<HashMap<u64, Arc<Run>>>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(1);

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Handle that removes the run from the registry when the scenario is over.
pub struct RunGuard(pub Arc<Run>);

impl std::ops::Deref for RunGuard {
    type Target = Run;
    fn deref(&self) -> &Run {
        &self.0
    }
}

impl Drop for RunGuard {
    fn drop(&mut self) {
        self.0.closed.store(true, Ordering::SeqCst);
        self.0.open_gate();
        // Late executions of abandoned runs look their run up: keep the entry
        // (they are small), but not the log.
        lock(&self.0.execs).clear();
        let mut g = lock(&RUNS);
        let map = g.get_or_insert_with(HashMap::new);
        if map.len() > 20_000 {
            let old = self.0.id.saturating_sub(10_000);
            map.retain(|id, _| *id > old);
        }
    }
}

pub fn new_run(seed: u64, delay: Delay) -> RunGuard {
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    let run = Arc::new(Run {
        id,
        seed,
        delay,
        execs: Default::default(),
        ends: Default::default(),
        done: Default::default(),
        combined: Default::default(),
        running: Default::default(),
        max_running: Default::default(),
        closed: Default::default(),
        problems: Default::default(),
        gate: Default::default(),
        cond: Condvar::new(),
        abort_seen: Default::default(),
        notify: tokio::sync::Notify::new(),
    });
    lock(&RUNS)
        .get_or_insert_with(HashMap::new)
        .insert(id, run.clone());
    RunGuard(run)
}

pub fn get(id: u64) -> Option<Arc<Run>> {
    lock(&RUNS).as_ref().and_then(|m| m.get(&id).cloned())
}

pub fn random_delay(rng: &mut Rng) -> Delay {
    match rng.below(10) {
        0..=2 => Delay::None,
        3..=5 => Delay::Jitter,
        6..=7 => Delay::Sleep(rng.range(50, 800) as u32),
        _ => Delay::Straggler(rng.range(500, 3000) as u32),
    }
}

pub fn apply_delay(delay: Delay, h: u64) {
    match delay {
        Delay::None => {}
        Delay::Jitter => match h % 4 {
            0 => {}
            1 => std::thread::yield_now(),
            2 => {
                for _ in 0..(h >> 8) % 4000 {
                    std::hint::spin_loop();
                }
            }
            _ => std::thread::sleep(Duration::from_micros((h >> 8) % 60)),
        },
        Delay::Sleep(us) => std::thread::sleep(Duration::from_micros((h >> 8) % us as u64)),
        Delay::Straggler(us) => {
            if (h >> 8) % 7 == 0 {
                std::thread::sleep(Duration::from_micros(us as u64));
            }
        }
    }
}

impl Run {
    pub fn begin(&self, e: Exec) {
        lock(&self.execs).push(e);
        let n = self.running.fetch_add(1, Ordering::SeqCst) + 1;
        self.max_running.fetch_max(n, Ordering::SeqCst);
    }
    pub fn end(&self) {
        self.running.fetch_sub(1, Ordering::SeqCst);
        self.done.fetch_add(1, Ordering::SeqCst);
        self.notify.notify_one();
    }
    pub fn delay_for(&self, key: u64) {
        apply_delay(self.delay, mix(self.seed, key));
    }
    pub fn problem(&self, s: String) {
        lock(&self.problems).push(s);
    }
    pub fn first_problem(&self) -> Option<String> {
        lock(&self.problems).first().cloned()
    }
    /// Combinations completed.
    pub fn combinations_done(&self) -> u64 {
        self.combined.load(Ordering::SeqCst)
    }
    pub fn execs(&self) -> Vec<Exec> {
        lock(&self.execs).clone()
    }
    pub fn count(&self) -> usize {
        lock(&self.execs).len()
    }
    /// Wait at the gate until it is opened, or a ticket is available.
    pub fn wait_gate(&self) {
        let mut g = lock(&self.gate);
        g.waiting += 1;
        self.notify.notify_one();
        while !g.open && g.tickets == 0 {
            g = self.cond.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if !g.open {
            g.tickets -= 1;
        }
        g.waiting -= 1;
    }
    pub fn waiting(&self) -> usize {
        lock(&self.gate).waiting
    }
    pub fn open_gate(&self) {
        lock(&self.gate).open = true;
        self.cond.notify_all();
    }
    pub fn ticket(&self, n: u64) {
        lock(&self.gate).tickets += n;
        self.cond.notify_all();
    }
    /// How often each element was executed at a stage.
    pub fn tally(&self, stage: u32) -> HashMap<u64, u32> {
        let mut m = HashMap::new();
        for e in lock(&self.execs).iter() {
            if e.stage == stage && e.ranges.is_none() {
                *m.entry(e.idx).or_default() += 1;
            }
        }
        m
    }
    /// Fingerprint of the order in which executions began.
    pub fn order_sig(&self) -> u64 {
        lock(&self.execs).iter().fold(3, |h, e| {
            mix(
                h,
                mix(
                    e.idx,
                    e.ranges.map(|(a, b)| mix(a.0, b.1)).unwrap_or(e.stage as u64),
                ),
            )
        })
    }
}

pub fn thread_id() -> u64 {
    static N: AtomicU64 = AtomicU64::new(1);
    thread_local!(static ID: u64 = N.fetch_add(1, Ordering::Relaxed));
    ID.with(|x| *x)
}
