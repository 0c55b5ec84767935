//! The operations the scenarios run.
use std::{
    num::NonZeroU32,
    sync::atomic::Ordering,
    time::{Duration, Instant},
};

use paladin::{
    operation::{FatalError, FatalStrategy, Monoid, Operation, Result, RetryStrategy, TransientError},
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::{
    ledger::{self, Exec},
    rng::mix,
};

/// What executing an element does.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub enum Act {
    #[default]
    None,
    Fatal {
        ignore: bool,
        msg: String,
    },
    Panic,
    /// Fails transiently `fails` times, and then does as `then` says.
    Transient {
        fails: u32,
        retries: u32,
        /// 0: immediate, 1: after a delay.
        after_ms: u32,
        ignore: bool,
        msg: String,
        then: Box<Act>,
    },
    /// Waits at the run's gate, and then notes whether the abort signal is raised.
    Gate,
    /// Waits at the run's gate or for the abort signal.
    Abortable,
    /// Sleep for the given number of microseconds.
    Sleep(u32),
}

/// The element of most scenarios.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Item {
    pub run: u64,
    pub idx: u64,
    pub stage: u32,
    pub val: u64,
    pub act: Act,
    /// The stage at which `act` applies.
    pub act_stage: u32,
    #[serde(with = "bytes_compat")]
    pub pad: Vec<u8>,
}

mod bytes_compat {
    use super::*;
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> std::result::Result<Vec<u8>, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> std::result::Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> std::result::Result<Vec<u8>, E> {
                Ok(v)
            }
        }
        d.deserialize_byte_buf(V)
    }
}

/// The function an operation of kind `op` with argument `k` computes.
pub fn f(op: u32, k: u64, val: u64) -> u64 {
    mix(val, mix(k, op as u64 + 1))
}

pub fn expected(op: u32, k: u64, item: &Item) -> Item {
    Item {
        stage: item.stage.wrapping_add(1),
        val: f(op, k, item.val),
        ..item.clone()
    }
}

/// An error with the message, and possibly a cause.
#[derive(Debug)]
struct Failure(String, Option<std::num::ParseIntError>);

impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Failure {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| e as _)
    }
}

fn failure(msg: &str, k: u64) -> Failure {
    Failure(msg.to_string(), if k % 2 == 0 { "x".parse::<u8>().err() } else { None })
}

/// A fatal error, constructed in one of the ways there are.
fn fatal(msg: &str, strategy: FatalStrategy, idx: u64) -> FatalError {
    let k = mix(idx, msg.len() as u64);
    match k % 4 {
        0 => FatalError::new(failure(msg, k >> 8), strategy),
        1 => FatalError::from_anyhow(anyhow::anyhow!("a cause").context(msg.to_string()), strategy),
        2 => FatalError::from_anyhow(failure(msg, k >> 8).into(), strategy),
        _ => FatalError::from_str(msg, strategy),
    }
}

fn transient(msg: &str, idx: u64, retry: RetryStrategy, fatal: FatalStrategy) -> TransientError {
    let k = mix(idx, msg.len() as u64);
    match k % 4 {
        0 => TransientError::new(failure(msg, k >> 8), retry, fatal),
        1 => TransientError::from_anyhow(anyhow::anyhow!("a cause").context(msg.to_string()), retry, fatal),
        2 => TransientError::from_anyhow(failure(msg, k >> 8).into(), retry, fatal),
        _ => TransientError::from_str(msg, retry, fatal),
    }
}

/// The attempt number (from 1) of the execution just begun.
fn attempts(run: &ledger::Run, stage: u32, idx: u64) -> u32 {
    run.tally(stage).get(&idx).copied().unwrap_or(0)
}

fn act(
    run: &ledger::Run,
    what: &Act,
    attempt: u32,
    idx: u64,
    abort: &AbortSignal,
) -> Result<()> {
    match what {
        Act::None => Ok(()),
        Act::Fatal { ignore, msg } => fatal(msg, strategy(*ignore), idx).into(),
        // Payloads of any kind; the last two are none that have a text.
        Act::Panic => match idx % 5 {
            0 => panic!("pv-intended"),
            1 => std::panic::panic_any(format!("pv-intended {idx}")),
            2 => std::panic::resume_unwind(Box::new(idx)),
            3 => std::panic::resume_unwind(Box::new(Failure(String::new(), None))),
            _ => panic!("pv-intended {idx}"),
        },
        Act::Transient {
            fails,
            retries,
            after_ms,
            ignore,
            msg,
            then,
        } => {
            if attempt <= *fails {
                let max_retries = NonZeroU32::new(*retries).unwrap();
                transient(
                    &format!("{msg} attempt {attempt}"),
                    idx,
                    if *after_ms == 0 {
                        RetryStrategy::Immediate { max_retries }
                    } else {
                        RetryStrategy::After {
                            max_retries,
                            duration: Duration::from_millis(*after_ms as u64),
                        }
                    },
                    strategy(*ignore),
                )
                .into()
            } else {
                act(run, then, attempt, idx, abort)
            }
        }
        Act::Gate => {
            run.wait_gate();
            if abort.as_ref().is_some_and(|f| f.load(Ordering::SeqCst)) {
                run.abort_seen.fetch_add(1, Ordering::SeqCst);
            }
            Ok(())
        }
        Act::Abortable => {
            let flag = abort.clone();
            let t = Instant::now();
            // The waiting is bounded in case the run is over.
            while !run.closed.load(Ordering::SeqCst) && t.elapsed().as_secs() < 120 {
                if flag.as_ref().is_some_and(|f| f.load(Ordering::SeqCst)) {
                    run.abort_seen.fetch_add(1, Ordering::SeqCst);
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            Ok(())
        }
        Act::Sleep(us) => {
            std::thread::sleep(Duration::from_micros(*us as u64));
            Ok(())
        }
    }
}

pub fn strategy(ignore: bool) -> FatalStrategy {
    if ignore {
        FatalStrategy::Ignore
    } else {
        FatalStrategy::Terminate
    }
}

pub fn step(op: u32, k: u64, item: Item, abort: AbortSignal) -> Result<Item> {
    let Some(run) = ledger::get(item.run) else {
        return Ok(expected(op, k, &item));
    };
    run.begin(Exec {
        op,
        stage: item.stage,
        idx: item.idx,
        ranges: None,
        at: Instant::now(),
        thread: ledger::thread_id(),
    });
    struct End<'a>(&'a ledger::Run, u64);
    impl Drop for End<'_> {
        fn drop(&mut self) {
            self.0.ends.lock().unwrap_or_else(|e| e.into_inner()).insert(self.1, Instant::now());
            self.0.end();
        }
    }
    let _end = End(&run, item.idx);
    run.delay_for(mix(item.idx, item.stage as u64));
    if item.act != Act::None && item.act_stage == item.stage {
        let attempt = attempts(&run, item.stage, item.idx);
        act(&run, &item.act, attempt, item.idx, &abort)?;
    }
    Ok(expected(op, k, &item))
}

macro_rules! step_op {
    ($name:ident, $tag:expr) => {
        #[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
        pub struct $name(pub u64);
        impl Operation for $name {
            type Input = Item;
            type Output = Item;
            fn execute(&self, input: Item, abort: AbortSignal) -> Result<Item> {
                step($tag, self.0, input, abort)
            }
        }
    };
}

step_op!(Step, 1);
step_op!(Step2, 2);
step_op!(Step3, 3);

/// A run of consecutive elements: the free monoid, so that any mistake in
/// order or multiplicity is visible.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Seg {
    pub run: u64,
    pub items: Vec<u64>,
    pub act: Act,
    #[serde(with = "bytes_compat")]
    pub pad: Vec<u8>,
}

impl Seg {
    pub fn one(run: u64, idx: u64) -> Seg {
        Seg {
            run,
            items: vec![idx],
            act: Act::None,
            pad: vec![],
        }
    }
}

/// Concatenation. The constructor argument is the run, needed by `empty`.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Cat(pub u64);

impl Monoid for Cat {
    type Elem = Seg;
    fn empty(&self) -> Seg {
        Seg {
            run: self.0,
            items: vec![u64::MAX],
            act: Act::None,
            pad: vec![],
        }
    }
    fn combine(&self, a: Seg, b: Seg, abort: AbortSignal) -> Result<Seg> {
        cat(4, self.0, a, b, abort)
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Cat2(pub u64);

impl Monoid for Cat2 {
    type Elem = Seg;
    fn empty(&self) -> Seg {
        Cat(self.0).empty()
    }
    fn combine(&self, a: Seg, b: Seg, abort: AbortSignal) -> Result<Seg> {
        cat(5, self.0, a, b, abort)
    }
}

fn cat(op: u32, this: u64, mut a: Seg, mut b: Seg, abort: AbortSignal) -> Result<Seg> {
    let Some(run) = ledger::get(a.run) else {
        a.items.append(&mut b.items);
        return Ok(a);
    };
    let ends = |s: &Seg| {
        (
            s.items.first().copied().unwrap_or(u64::MAX),
            s.items.last().copied().unwrap_or(u64::MAX),
        )
    };
    let (ra, rb) = (ends(&a), ends(&b));
    run.begin(Exec {
        op,
        stage: u32::MAX,
        idx: ra.0,
        ranges: Some((ra, rb)),
        at: Instant::now(),
        thread: ledger::thread_id(),
    });
    struct End<'a>(&'a ledger::Run);
    impl Drop for End<'_> {
        fn drop(&mut self) {
            self.0.combined.fetch_add(1, Ordering::SeqCst);
            self.0.end();
        }
    }
    let _end = End(&run);
    if a.run != b.run || this != a.run {
        run.problem(format!(
            "combined elements of runs {} and {} with the operation of run {this}",
            a.run, b.run
        ));
    }
    if ra.1.wrapping_add(1) != rb.0 {
        run.problem(format!("combined {ra:?} with {rb:?}, which does not follow it"));
    }
    run.delay_for(mix(ra.0, mix(rb.0, rb.1)));
    let wanted = std::mem::take(if b.act != Act::None { &mut b.act } else { &mut a.act });
    if wanted != Act::None {
        let attempt = run
            .execs()
            .iter()
            .filter(|e| e.ranges == Some((ra, rb)))
            .count() as u32;
        act(&run, &wanted, attempt, rb.0, &abort)?;
    }
    a.act = Act::None;
    a.items.append(&mut b.items);
    a.pad.append(&mut b.pad);
    Ok(a)
}

/// Turns an item into a segment of one element.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ToSeg;

impl Operation for ToSeg {
    type Input = Item;
    type Output = Seg;
    fn execute(&self, input: Item, abort: AbortSignal) -> Result<Seg> {
        let out = step(6, 0, input, abort)?;
        Ok(Seg {
            run: out.run,
            items: vec![out.idx],
            act: Act::None,
            pad: out.pad,
        })
    }
}

/// Affine functions modulo 2^64 under composition: a small non-commutative
/// monoid. Not logged.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Affine;

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub struct Aff(pub u64, pub u64);

impl Aff {
    pub fn then(self, o: Aff) -> Aff {
        Aff(
            self.0.wrapping_mul(o.0),
            self.1.wrapping_mul(o.0).wrapping_add(o.1),
        )
    }
}

impl Monoid for Affine {
    type Elem = Aff;
    fn empty(&self) -> Aff {
        Aff(1, 0)
    }
    fn combine(&self, a: Aff, b: Aff, _: AbortSignal) -> Result<Aff> {
        Ok(a.then(b))
    }
}

/// Operations and a monoid with arguments that matter.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ToAff(pub u64);

impl ToAff {
    pub fn of(&self, x: &Item) -> Aff {
        Aff(mix(x.val, self.0) | 1, mix(self.0, x.idx))
    }
}

impl Operation for ToAff {
    type Input = Item;
    type Output = Aff;
    fn execute(&self, input: Item, _: AbortSignal) -> Result<Aff> {
        Ok(self.of(&input))
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ToNum(pub u64);

impl ToNum {
    pub fn of(&self, x: &Item) -> u64 {
        mix(x.val, mix(self.0, x.idx))
    }
}

impl Operation for ToNum {
    type Input = Item;
    type Output = u64;
    fn execute(&self, input: Item, _: AbortSignal) -> Result<u64> {
        Ok(self.of(&input))
    }
}

/// Addition with an offset: a + b + k, whose identity is -k.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Shift(pub u64);

impl Shift {
    pub fn add(k: u64, a: u64, b: u64) -> u64 {
        a.wrapping_add(b).wrapping_add(k)
    }
}

impl Monoid for Shift {
    type Elem = u64;
    fn empty(&self) -> u64 {
        0u64.wrapping_sub(self.0)
    }
    fn combine(&self, a: u64, b: u64, _: AbortSignal) -> Result<u64> {
        Ok(Shift::add(self.0, a, b))
    }
}
