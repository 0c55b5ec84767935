//! C22: an in-memory runtime runs exactly its configured number of tasks in
//! parallel.
use std::{collections::HashMap, sync::Arc, time::Duration};

use futures::StreamExt;
use paladin::{
    directive::{Directive, IndexedStream},
    runtime::Runtime,
    task::Task,
};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, runtime, vt, within},
    ledger::{self, RunGuard},
    ops::{expected, Act, Item, Step, Step2},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "parallel: one case is a runtime of 1 to 70 workers with more blocking tasks than that (of 1 to 4 computations), \
               released one at a time: as many as there are workers must run after each release, never more, each on a \
               worker of its own, before and after generated failures; drop: one case drops a runtime while idle, busy or \
               with a backlog, after which no further task may start and no background task may survive. Distinct by the \
               order of executions and the configuration",
        families: vec![
            Family { name: "parallel", run: parallel_virt, quick: 400, thorough: 15, threads: 4, secs: 25, min: 10 },
            Family { name: "parallel-real", run: parallel_real, quick: 150, thorough: 15, threads: 2, secs: 25, min: 5 },
            Family { name: "drop", run: drop_virt, quick: 600, thorough: 15, threads: 4, secs: 20, min: 10 },
            Family { name: "drop-real", run: drop_real, quick: 100, thorough: 15, threads: 2, secs: 20, min: 5 },
        ],
        assumptions: vec!["the number of workers is configured (not left to its default)"],
        allowed_panics: vec![],
    }
}

fn any_workers(rng: &mut Rng) -> usize {
    match rng.below(25) {
        0 => rng.range(10, 70) as usize,
        _ => rng.range(1, 9) as usize,
    }
}

fn parallel_virt(seed: u64, _: &Ctx) -> Res {
    vt(parallel(seed, true))
}
fn parallel_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, parallel(seed, false))
}

/// Let everything that can happen, happen (other than the passage of time).
async fn settle(run: &RunGuard) {
    for _ in 0..3 {
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        // Let the threads that execute operations take their turns.
        _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_micros(300))).await;
    }
    let _ = run;
}

/// A computation in which tasks fail without ending it.
/// (In virtual time, without delays: time stands still while others block.)
async fn failures(rng: &mut Rng, rt: &Runtime, virt: bool) -> Result<u64, Bad> {
    let run = ledger::new_run(rng.u64(), ledger::Delay::None);
    let n = rng.range(1, 20) as usize;
    let mut ok = 0;
    let xs: Vec<(usize, Item)> = (0..n)
        .map(|i| {
            let act = match rng.below(3) {
                0 => Act::Fatal { ignore: true, msg: "pv-ignored".into() },
                1 => Act::Transient {
                    fails: 1000,
                    retries: 1 + rng.below(2) as u32,
                    after_ms: if virt { 0 } else { rng.below(2) as u32 },
                    ignore: true,
                    msg: "pv-transient".into(),
                    then: Box::new(Act::None),
                },
                _ => {
                    ok += 1;
                    Act::Transient {
                        fails: 1 + rng.below(2) as u32,
                        retries: 3,
                        after_ms: if virt { 0 } else { rng.below(2) as u32 },
                        ignore: rng.chance(50),
                        msg: "pv-transient".into(),
                        then: Box::new(Act::None),
                    }
                }
            };
            (i, Item { run: run.id, idx: i as u64, act, ..Default::default() })
        })
        .collect();
    let op = Step2(5);
    let mut out = Directive::map(paced_ok(xs, Pace::Burst, 0, 1), &op).run(rt).await?;
    within("computation with ignored failures", async {
        for _ in 0..ok {
            match out.next().await {
                Some(x) => x?,
                None => return Err(Bad::Violation("computation with ignored failures ended early".into())),
            };
        }
        Ok(())
    })
    .await??;
    Ok((n - ok) as u64)
}

async fn parallel(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng);
    let rt = Arc::new(runtime(workers, any_serializer(&mut rng)).await?);
    let mut sig = workers as u64;
    let mut failed = 0;
    let mut released = 0;
    let rounds = rng.range(1, 3);
    let mut sample = vec![];
    for round in 0..rounds {
        if round > 0 || rng.chance(60) {
            failed += failures(&mut rng, &rt, virt).await?;
        }
        let run = ledger::new_run(rng.u64(), ledger::Delay::None);
        let total = workers + rng.range(0, 2 * workers as u64) as usize;
        let split = rng.range(1, 4) as usize;
        let parts: Vec<Vec<Item>> = (0..split)
            .map(|p| {
                (0..total)
                    .filter(|i| i % split == p)
                    .map(|i| Item { run: run.id, idx: i as u64, act: Act::Gate, ..Default::default() })
                    .collect()
            })
            .collect();
        let handles: Vec<_> = parts
            .into_iter()
            .map(|xs| {
                let rt = rt.clone();
                tokio::spawn(async move {
                    let op = Step(9);
                    let want: HashMap<usize, Item> =
                        xs.iter().map(|x| (x.idx as usize, expected(1, 9, x))).collect();
                    let s = IndexedStream::new(futures::stream::iter(
                        xs.into_iter().map(|x| Ok((x.idx as usize, x))),
                    ));
                    let mut out = Directive::map(s, &op).run(&rt).await?;
                    let mut got = vec![];
                    while let Some(x) = out.next().await {
                        got.push(x?);
                    }
                    check_outputs("a map of blocking operations", &got, &want)
                })
            })
            .collect();
        // Releasing them one at a time (or a few), as many as there are workers
        // are running again each time.
        let mut left = total;
        while left > 0 {
            let want = left.min(workers);
            let what = format!("having {want} of {left} blocking tasks run on {workers} workers (round {round}, {failed} tasks failed before)");
            within(&what, async {
                while run.waiting() < want {
                    run.notify.notified().await;
                }
            })
            .await?;
            if rng.chance(40) {
                settle(&run).await;
            }
            let now = run.waiting();
            ensure!(now == want, "{now} tasks run at the same time on {workers} workers");
            let k = if rng.chance(60) { 1 } else { rng.range(1, want as u64) as usize };
            run.ticket(k as u64);
            released += k as u64;
            left -= k;
            // Until these have ended.
            within("the end of released tasks", async {
                while run.done.load(std::sync::atomic::Ordering::SeqCst) < (total - left) as u64 {
                    run.notify.notified().await;
                }
            })
            .await?;
        }
        for h in handles {
            within("a map of blocking operations", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
        let max = run.max_running.load(std::sync::atomic::Ordering::SeqCst);
        ensure!(max == workers.min(total), "up to {max} tasks ran at the same time on {workers} workers");
        sig = mix(sig, mix(total as u64, run.order_sig()));
        sample.push(json!({"tasks": total, "computations": split}));
    }
    Ok(Seen {
        sig,
        nontrivial: true,
        sample: Some(json!({"workers": workers, "rounds": sample, "failed_before": failed})),
        counts: vec![("released_and_replaced", released), ("failed_tasks", failed)],
    })
}

fn drop_virt(seed: u64, _: &Ctx) -> Res {
    vt(dropped(seed, true))
}
fn drop_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, dropped(seed, false))
}

async fn dropped(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let metrics = tokio::runtime::Handle::current().metrics();
    let before = metrics.num_alive_tasks();
    let workers = any_workers(&mut rng);
    let rt = runtime(workers, any_serializer(&mut rng)).await?;
    let kind = rng.below(5);
    let run = ledger::new_run(seed, ledger::Delay::None);
    let op = Step(1);
    let mut queued = 0;
    let mut late = None;
    match kind {
        // At once, before anything was started.
        0 => {}
        // Idle.
        1 => settle(&run).await,
        2 => {
            let f = failures(&mut rng, &rt, virt).await?;
            queued = f;
        }
        // Busy, with a backlog.
        _ => {
            let n = workers + rng.below(10) as usize;
            let (id, sender, receiver) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
            for i in 0..n {
                let item = Item { run: run.id, idx: i as u64, act: Act::Gate, ..Default::default() };
                sender
                    .publish(&Task { routing_key: id.clone(), metadata: i as u64, op: &op, input: item })
                    .await?;
            }
            within("starting tasks on every worker", async {
                while run.waiting() < workers {
                    run.notify.notified().await;
                }
            })
            .await?;
            queued = n as u64;
            if kind == 3 {
                late = Some((id, sender, receiver));
            }
        }
    }
    if rng.chance(40) {
        settle(&run).await;
    }
    // However it comes to be dropped.
    let how = rng.below(6);
    match how {
        0 => {
            // On another thread.
            _ = std::thread::spawn(move || drop(rt)).join();
        }
        1 => {
            // While a panic unwinds.
            _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _rt = rt;
                std::panic::resume_unwind(Box::new("pv: unwinding"));
            }));
        }
        2 => {
            // With a task that panics.
            _ = tokio::spawn(async move {
                let _rt = rt;
                tokio::task::yield_now().await;
                std::panic::resume_unwind(Box::new("pv: unwinding"));
            })
            .await;
        }
        3 => {
            // With a task that is aborted.
            let t = tokio::spawn(async move {
                let _rt = rt;
                futures::future::pending::<()>().await;
            });
            tokio::task::yield_now().await;
            t.abort();
            _ = t.await;
        }
        4 => {
            // The last of several owners.
            let a = Arc::new(rt);
            let b = a.clone();
            drop(a);
            drop(b);
        }
        _ => drop(rt),
    }
    // A dropped worker may still have taken up a task at that very time, but no
    // more than one.
    settle(&run).await;
    let begun = run.count();
    ensure!(begun <= workers, "{begun} tasks were started on {workers} workers");
    run.open_gate();
    if let Some((id, sender, _)) = &late {
        // Tasks published after the drop must not be executed either.
        for i in 0..3 {
            let item = Item { run: run.id, idx: 1000 + i, ..Default::default() };
            _ = sender
                .publish(&Task { routing_key: id.clone(), metadata: i, op: &op, input: item })
                .await;
        }
    }
    settle(&run).await;
    let n = run.count();
    ensure!(n == begun, "{} tasks were started after the runtime was dropped", n - begun);
    drop(late);
    // Everything in the background ends.
    let t = std::time::Instant::now();
    let mut alive;
    loop {
        alive = metrics.num_alive_tasks();
        if alive <= before || t.elapsed().as_secs() >= 30 {
            break;
        }
        settle(&run).await;
        if t.elapsed().as_millis() > 500 {
            tokio::time::sleep(Duration::from_millis(200)).await;
        }
    }
    ensure!(
        alive <= before,
        "{} background tasks survive the runtime (of {workers} workers)",
        alive - before
    );
    let n = run.count();
    ensure!(n == begun, "{} tasks were started after the runtime was dropped", n - begun);
    Ok(Seen {
        sig: mix(mix(kind * 8 + how, workers as u64), mix(queued, run.order_sig())),
        nontrivial: true,
        sample: Some(json!({"workers": workers, "queued": queued, "begun": begun,
            "dropped": (["on another thread", "while unwinding", "with a panicking task", "with an aborted task",
                "as the last of two owners", "in place"][how as usize]),
            "when": (["at once", "idle", "after failures", "busy, and publishing after", "busy"][kind as usize])})),
        counts: vec![("runtimes_dropped", 1), ("in_flight_at_drop", begun as u64)],
    })
}
