//! C08: transient failures are retried exactly as their strategy says.
use std::{
    num::NonZeroU32,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    directive::{Directive, IndexedStream},
    operation::{FatalError, FatalStrategy, OperationError, RetryStrategy, TransientError},
};
use serde_json::json;
use tokio::time::Instant;

use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, runtime, vt, within},
    ledger,
    ops::{expected, strategy, Act, Item, Step},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "one case is a scripted sequence of outcomes (transient, fatal, success) retried with a generated strategy, \
               directly in virtual time, with backoff in real time, or as a task of a runtime; attempts, their times, \
               traced errors and the final outcome are compared with a reference. Non-trivial if at least one retry \
               happened; distinct by script and strategy",
        families: vec![
            Family { name: "strategy", run: direct, quick: 4000, thorough: 12, threads: 4, secs: 15, min: 50 },
            Family { name: "operation-error", run: operation_error, quick: 4000, thorough: 12, threads: 4, secs: 15, min: 50 },
            Family { name: "exponential", run: exponential, quick: 60, thorough: 12, threads: 8, secs: 15, min: 8 },
            Family { name: "runtime", run: through_runtime, quick: 300, thorough: 12, threads: 4, secs: 15, min: 10 },
        ],
        assumptions: vec![
            "timers have millisecond granularity",
            "the exponential strategy is checked against its guaranteed lower bounds and generous upper bounds",
        ],
        allowed_panics: vec![],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Ok,
    /// Transient, with the number of milliseconds the attempt takes.
    Transient(u64),
    Fatal,
}

fn script(rng: &mut Rng, max: u32) -> Vec<Out> {
    // After the script, every attempt fails transiently.
    let n = rng.range(0, (max as u64 + 3).min(200));
    let mut v: Vec<Out> = (0..n).map(|_| Out::Transient(if rng.chance(30) { rng.range(1, 5000) } else { 0 })).collect();
    match rng.below(4) {
        0 => v.push(Out::Ok),
        1 => v.push(Out::Fatal),
        2 => {
            v.push(if rng.chance(50) { Out::Ok } else { Out::Fatal });
            v.push(Out::Ok);
        }
        _ => {}
    }
    v
}

fn any_simple(rng: &mut Rng) -> (RetryStrategy, u32, Duration) {
    let max = match rng.below(60) {
        0..=9 => 1,
        10..=19 => 2,
        20 => *rng.pick(&[255, 256, 257, 1001, 5000, 66_000]),
        21..=29 => rng.range(10, 40) as u32,
        _ => rng.range(1, 8) as u32,
    };
    let max_retries = NonZeroU32::new(max).unwrap();
    if rng.chance(40) {
        (RetryStrategy::Immediate { max_retries }, max, Duration::ZERO)
    } else {
        let duration = Duration::from_millis(*rng.pick(&[1, 7, 250, 1000, 4096, 60_000, 3_600_000][..if max > 1000 { 2 } else { 7 }]));
        (RetryStrategy::After { max_retries, duration }, max, duration)
    }
}

struct Log {
    script: Vec<Out>,
    n: AtomicUsize,
    /// Start and end of each attempt.
    at: Mutex<Vec<(Instant, Instant)>>,
    traced: Mutex<Vec<String>>,
}

impl Log {
    fn new(script: Vec<Out>) -> Self {
        Log { script, n: AtomicUsize::new(0), at: Default::default(), traced: Default::default() }
    }
    async fn next(&self) -> (usize, Out) {
        let i = self.n.fetch_add(1, Ordering::SeqCst);
        let t = Instant::now();
        let o = self.script.get(i).cloned().unwrap_or(Out::Transient(0));
        if let Out::Transient(ms) = o {
            if ms > 0 {
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
        }
        self.at.lock().unwrap().push((t, Instant::now()));
        (i, o)
    }
    /// Attempts are separated by the delay, within timer granularity.
    fn check_gaps(&self, delay: Duration) -> Result<(), Bad> {
        let at = self.at.lock().unwrap();
        for w in at.windows(2) {
            let gap = w[1].0 - w[0].1;
            ensure!(
                gap >= delay && gap <= delay + Duration::from_millis(2),
                "attempts were separated by {gap:?} instead of {delay:?}"
            );
        }
        Ok(())
    }
}

/// `RetryStrategy::retry(_trace)` with any error type.
fn direct(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let (strat, max, delay) = any_simple(&mut rng);
        let script: Vec<Out> = script(&mut rng, max)
            .into_iter()
            .map(|o| if o == Out::Fatal { Out::Transient(0) } else { o })
            .collect();
        let log = Log::new(script.clone());
        let t0 = Instant::now();
        let f = || async {
            match log.next().await {
                (i, Out::Ok) => Ok(i),
                (i, _) => Err(format!("attempt {i}")),
            }
        };
        let traced = rng.chance(60);
        let never = Duration::from_secs(10_000_000);
        let r = tokio::time::timeout(never, async {
            if traced {
                strat.retry_trace(f, |e| log.traced.lock().unwrap().push(e)).await
            } else {
                strat.retry(f).await
            }
        })
        .await
        .map_err(|_| Bad::Violation("retry never completes".into()))?;
        let first_ok = script.iter().position(|o| *o == Out::Ok).filter(|i| *i <= max as usize);
        let attempts = log.n.load(Ordering::SeqCst);
        let what = format!("{strat:?} with outcomes {script:?}");
        match first_ok {
            Some(i) => {
                ensure!(r == Ok(i), "{what}: gave {r:?} instead of the success of attempt {i}");
                ensure!(attempts == i + 1, "{what}: {attempts} attempts instead of {}", i + 1);
            }
            None => {
                ensure!(r == Err(format!("attempt {max}")), "{what}: gave {r:?} instead of the last error");
                ensure!(attempts == max as usize + 1, "{what}: {attempts} attempts instead of {}", max + 1);
            }
        }
        log.check_gaps(delay)?;
        ensure!(log.at.lock().unwrap()[0].0 == t0, "{what}: the first attempt was delayed");
        if traced {
            let want: Vec<String> = (0..attempts - 1).map(|i| format!("attempt {i}")).collect();
            let got = log.traced.lock().unwrap().clone();
            ensure!(got == want, "{what}: traced {got:?}");
        }
        Ok(seen(attempts, &what, seed))
    })
}

fn seen(attempts: usize, what: &str, _seed: u64) -> Seen {
    Seen {
        sig: what.bytes().fold(attempts as u64, |h, b| mix(h, b as u64)),
        nontrivial: attempts > 1,
        sample: Some(json!({"case": what.chars().take(300).collect::<String>(), "attempts": attempts})),
        counts: vec![("attempts", attempts as u64)],
    }
}

/// `OperationError::retry(_trace)`: fatal errors end it.
fn operation_error(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let (strat, max, delay) = any_simple(&mut rng);
        let script = script(&mut rng, max);
        let log = Log::new(script.clone());
        let first_ignore = rng.chance(50);
        let other_ignore = rng.chance(50);
        let fatal_first = rng.chance(8);
        let first: OperationError = if fatal_first {
            FatalError::from_str("first", strategy(first_ignore)).into()
        } else {
            TransientError::from_str("first", strat, strategy(first_ignore)).into()
        };
        // The strategies of the errors of later attempts do not count.
        let decoy = RetryStrategy::Immediate { max_retries: NonZeroU32::new(1).unwrap() };
        let f = || async {
            match log.next().await {
                (i, Out::Ok) => Ok(i),
                (i, Out::Fatal) => Err(FatalError::from_str(&format!("fatal {i}"), strategy(other_ignore)).into()),
                (i, _) => {
                    Err(TransientError::from_str(&format!("attempt {i}"), decoy, strategy(other_ignore)).into())
                }
            }
        };
        let traced = rng.chance(60);
        let r = tokio::time::timeout(Duration::from_secs(10_000_000), async {
            if traced {
                first.retry_trace(f, |e| log.traced.lock().unwrap().push(e.to_string())).await
            } else {
                first.retry(f).await
            }
        })
        .await
        .map_err(|_| Bad::Violation("retry never completes".into()))?;
        let attempts = log.n.load(Ordering::SeqCst);
        let what = format!("{strat:?}, outcomes {script:?}, first error fatal: {fatal_first}, ignore: {first_ignore}/{other_ignore}");
        let got = match &r {
            Ok(i) => format!("ok {i}"),
            Err(OperationError::Transient { .. }) => "transient".into(),
            Err(OperationError::Fatal { err, strategy }) => {
                format!("fatal {err:#} {}", matches!(strategy, FatalStrategy::Ignore))
            }
        };
        let end = script.iter().position(|o| !matches!(o, Out::Transient(_))).filter(|i| *i <= max as usize);
        let (want, want_attempts) = if fatal_first {
            (format!("fatal first {first_ignore}"), 0)
        } else {
            match end {
                Some(i) if script[i] == Out::Ok => (format!("ok {i}"), i + 1),
                Some(i) => (format!("fatal fatal {i} {other_ignore}"), i + 1),
                None => (format!("fatal attempt {max} {first_ignore}"), max as usize + 1),
            }
        };
        ensure!(got == want, "{what}: the outcome is {got:?} instead of {want:?}");
        ensure!(attempts == want_attempts, "{what}: {attempts} attempts instead of {want_attempts}");
        log.check_gaps(delay)?;
        if traced && !fatal_first {
            let want: Vec<String> = (0..attempts.saturating_sub(1))
                .map(|i| format!("Transient operation error: attempt {i}"))
                .collect();
            let got = log.traced.lock().unwrap().clone();
            ensure!(got == want, "{what}: traced {got:?}");
        }
        Ok(seen(attempts, &what, seed))
    })
}

/// Backoff uses the real clock.
fn exponential(seed: u64, _: &Ctx) -> Res {
    mt(1, async move {
        let mut rng = Rng::new(seed);
        let min = Duration::from_millis(rng.range(2, 12));
        let kind = rng.below(4);
        let times = Mutex::new(Vec::<std::time::Instant>::new());
        let traced = AtomicUsize::new(0);
        let (max, succeed_at, fatal_at) = match kind {
            // Gives up.
            0 => (Duration::from_millis(rng.range(40, 150)), None, None),
            // Succeeds well before the maximum.
            1 => (Duration::from_secs(20), Some(rng.range(1, 5) as usize), None),
            // Can't wait even once.
            2 => (min / 4, None, None),
            _ => (Duration::from_secs(20), None, Some(rng.range(1, 4) as usize)),
        };
        let strat = RetryStrategy::Exponential { min_duration: min, max_duration: max };
        let f = || async {
            let mut t = times.lock().unwrap();
            t.push(std::time::Instant::now());
            let i = t.len() - 1;
            if succeed_at == Some(i) {
                Ok(i)
            } else if fatal_at == Some(i) {
                Err(FatalError::from_str("fatal", FatalStrategy::Ignore).into())
            } else {
                Err(OperationError::from(TransientError::from_str(
                    &format!("attempt {i}"),
                    RetryStrategy::default(),
                    FatalStrategy::Terminate,
                )))
            }
        };
        let t0 = std::time::Instant::now();
        let first = OperationError::from(TransientError::from_str("first", strat, FatalStrategy::Ignore));
        let r = tokio::time::timeout(
            Duration::from_secs(120),
            first.retry_trace(f, |_| {
                traced.fetch_add(1, Ordering::SeqCst);
            }),
        )
        .await;
        let took = t0.elapsed();
        let what = format!("exponential {min:?}..{max:?}, success at {succeed_at:?}, fatal at {fatal_at:?}");
        let Ok(r) = r else {
            return Err(Bad::Violation(format!("{what}: has not given up after {took:?}")));
        };
        let times = times.into_inner().unwrap();
        let n = times.len();
        let mut least = min.mul_f64(0.49);
        for w in times.windows(2) {
            let gap = w[1] - w[0];
            ensure!(gap >= least, "{what}: attempts separated by {gap:?}, less than {least:?}");
            least = least.mul_f64(1.45);
        }
        match (r, succeed_at, fatal_at) {
            (Ok(i), Some(k), _) => {
                ensure!(i == k && n == k + 1, "{what}: success of attempt {i} after {n} attempts");
                ensure!(traced.load(Ordering::SeqCst) == k, "{what}: traced {traced:?} failures");
            }
            (Err(OperationError::Fatal { err, strategy }), None, Some(k)) => {
                ensure!(
                    n == k + 1 && format!("{err}") == "fatal" && matches!(strategy, FatalStrategy::Ignore),
                    "{what}: ended with {err} after {n} attempts"
                );
            }
            (Err(OperationError::Fatal { err, strategy }), None, None) => {
                ensure!(
                    format!("{err}") == format!("attempt {}", n - 1),
                    "{what}: the error is {err} after {n} attempts, not the last one's"
                );
                ensure!(matches!(strategy, FatalStrategy::Ignore), "{what}: fatal strategy not that of the transient error");
                ensure!(traced.load(Ordering::SeqCst) == n - 1, "{what}: traced {traced:?} of {n} failures");
                if kind == 2 {
                    ensure!(n == 1, "{what}: {n} attempts");
                } else {
                    // It gives up when the next wait would end after the maximum: the wait is at most
                    // 1.5 times the current interval.
                    let interval = min.mul_f64(1.5f64.powi(n as i32 - 1) * 1.5);
                    ensure!(
                        took + interval.mul_f64(1.01) + Duration::from_millis(1) >= max,
                        "{what}: gave up after {took:?}, before the maximum"
                    );
                    let last = times[n - 1] - t0;
                    ensure!(
                        last <= max + Duration::from_secs(10),
                        "{what}: still trying after {last:?}"
                    );
                }
            }
            (r, ..) => return Err(Bad::Violation(format!("{what}: ended with {r:?} after {n} attempts"))),
        }
        Ok(Seen {
            sig: mix(mix(min.as_micros() as u64, max.as_micros() as u64), n as u64),
            nontrivial: true,
            sample: Some(json!({"case": what, "attempts": n, "took_ms": took.as_millis() as u64})),
            counts: vec![("attempts", n as u64)],
        })
    })
}

/// A task is executed once, and then retried.
fn through_runtime(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = rng.range(1, 4) as usize;
        let rt = runtime(workers, any_serializer(&mut rng)).await?;
        let run = ledger::new_run(seed, ledger::Delay::None);
        let n = rng.range(1, 30) as usize;
        // How often each element is to be executed.
        let mut wanted = vec![];
        let xs: Vec<Item> = (0..n)
            .map(|i| {
                let mut act = Act::None;
                let mut times = 1;
                if rng.chance(60) {
                    let retries = rng.range(1, 6) as u32;
                    let fails = rng.range(1, retries as u64 + 4) as u32;
                    let then = if rng.chance(25) && fails <= retries + 1 {
                        Act::Fatal { ignore: true, msg: "fatal".into() }
                    } else {
                        Act::None
                    };
                    // Once, and up to 1 + retries times by the retry.
                    times = (fails + 1).min(retries + 2);
                    act = Act::Transient {
                        fails,
                        retries,
                        after_ms: if rng.chance(50) { 0 } else { rng.range(1, 90_000) as u32 },
                        ignore: true,
                        msg: "transient".into(),
                        then: Box::new(then),
                    };
                }
                let delivered = match &act {
                    Act::None => true,
                    Act::Transient { fails, retries, then, .. } => *fails <= retries + 1 && **then == Act::None,
                    _ => false,
                };
                wanted.push((times, delivered));
                Item { run: run.id, idx: i as u64, act, ..Default::default() }
            })
            .collect();
        let op = Step(9);
        let input = xs.clone();
        let mut out = Directive::map(IndexedStream::from(input), &op).run(&rt).await?;
        let m = wanted.iter().filter(|w| w.1).count();
        let mut got = std::collections::HashMap::new();
        within("the outputs of tasks that succeed after retries", async {
            while got.len() < m {
                match out.next().await {
                    Some(Ok((i, x))) => {
                        got.insert(i, x);
                    }
                    Some(Err(e)) => return Err(Bad::Violation(format!("error instead of a retry: {e:#}"))),
                    None => break,
                }
            }
            Ok(())
        })
        .await??;
        // Let the remaining tasks run.
        if let Ok(x) = tokio::time::timeout(Duration::from_secs(100_000), out.next()).await {
            if let Some(x) = x {
                return Err(format!("an additional output or error: {:?}", x.map(|x| x.0)).into());
            }
        }
        let tally = run.tally(0);
        for (i, (times, delivered)) in wanted.iter().enumerate() {
            let k = tally.get(&(i as u64)).copied().unwrap_or(0);
            ensure!(k == *times, "task {:?} was executed {k} times instead of {times}", xs[i].act);
            ensure!(got.contains_key(&i) == *delivered, "task {:?}: output delivered: {}", xs[i].act, !delivered);
            if let Some(x) = got.get(&i) {
                ensure!(*x == expected(1, 9, &xs[i]), "task {i}: wrong output");
            }
        }
        Ok(Seen {
            sig: mix(seed, run.order_sig()),
            nontrivial: wanted.iter().any(|w| w.0 > 1),
            sample: Some(json!({"tasks": n, "executions_wanted": wanted.iter().map(|w| w.0).collect::<Vec<_>>(), "workers": workers})),
            counts: vec![("attempts", run.count() as u64), ("tasks", n as u64)],
        })
    })
}
