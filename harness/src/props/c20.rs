//! C20: abort commands stop exactly what they name.
use std::{
    collections::HashMap,
    sync::{atomic::Ordering, Arc},
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    runtime::{CommandIpc, Runtime, COMMAND_IPC_ABORT_ALL_KEY, TASK_IPC_ROUTING_KEY},
    task::Task,
};
use serde_json::json;

use super::amqp::{at_broker, broker, leader, until, worker};
use crate::{
    broker::Ev,
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, runtime, vt, within},
    ledger::{self, RunGuard},
    ops::{expected, Act, Item, Step},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "all: one case has 1 to 6 (rarely up to 40) workers, some executing operations that wait for their abort signal, the others idle, \
               a backlog, and an abort-all among 0 to 5 (rarely up to 400) other abort commands (repeated, of unknown jobs, of jobs): every \
               running operation must see its signal and no task may start afterwards; one: 2 to 5 (rarely up to 120) jobs with running and \
               queued operations, some aborted: no further task of theirs may start, no signal may be raised, and all other \
               tasks must complete; amqp: the same over a fake broker with 1 to 4 workers, each of which must be given every \
               command. Distinct by the commands and the execution order",
        families: vec![
            Family { name: "all", run: all_virt, quick: 500, thorough: 20, threads: 5, secs: 25, min: 20 },
            Family { name: "all-real", run: all_real, quick: 60, thorough: 20, threads: 4, secs: 25, min: 10 },
            Family { name: "one", run: one_virt, quick: 600, thorough: 20, threads: 5, secs: 25, min: 20 },
            Family { name: "one-real", run: one_real, quick: 150, thorough: 20, threads: 2, secs: 25, min: 10 },
            Family { name: "amqp", run: amqp, quick: 120, thorough: 20, threads: 4, secs: 25, min: 10 },
        ],
        assumptions: vec![
            "a command counts as arrived when everything has come to rest after publishing it",
            "tasks of an aborted job that come later than a minute after the command are not looked at",
        ],
        allowed_panics: vec![],
    }
}

/// Until everything has happened that can without time passing. (In virtual
/// time this is exact but for running operations; in real time it is ample.)
async fn rest(virt: bool) {
    for _ in 0..3 {
        for _ in 0..30 {
            tokio::task::yield_now().await;
        }
        _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_micros(300))).await;
    }
    if !virt {
        // Ample time, and an executor that is not behind.
        let mut prompt = 0;
        for _ in 0..200 {
            tokio::time::sleep(Duration::from_millis(25)).await;
            let t = std::time::Instant::now();
            for h in (0..40).map(|_| tokio::spawn(tokio::task::yield_now())).collect::<Vec<_>>() {
                _ = h.await;
            }
            prompt += (t.elapsed() < Duration::from_millis(3)) as u32;
            if prompt >= 3 {
                break;
            }
        }
    }
}

async fn command(rt: &Runtime, key: &str) -> Result<(), Bad> {
    let s = rt.get_command_ipc_sender().await?;
    s.publish(&CommandIpc::Abort { routing_key: key.to_string() }).await?;
    s.close().await?;
    Ok(())
}

fn all_virt(seed: u64, _: &Ctx) -> Res {
    vt(all(seed, true))
}
fn all_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, all(seed, false))
}

async fn all(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = if rng.chance(6) { rng.range(7, 40) } else { rng.range(1, 6) } as usize;
    let rt = Arc::new(runtime(workers, any_serializer(&mut rng)).await?);
    // The workers listen.
    rest(virt).await;
    let run = ledger::new_run(seed, ledger::Delay::None);
    let op = Step(1);
    // Operations running when the command arrives.
    let busy = match rng.below(3) {
        0 => 0,
        1 => workers,
        _ => rng.usize(workers + 1),
    };
    let backlog = if busy == workers { rng.usize(6) } else { 0 };
    let (id, sender, receiver) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
    let (id2, sender2, receiver2) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
    let mut next = 0u64;
    let mut publish = |act: Act, second: bool| {
        let (id, s) = if second { (&id2, &sender2) } else { (&id, &sender) };
        let idx = next;
        next += 1;
        let item = Item { run: run.id, idx, act, ..Default::default() };
        let t = Task { routing_key: id.clone(), metadata: idx, op: &op, input: item };
        async move { s.publish(&t).await }
    };
    if rng.chance(30) {
        // The workers have executed something before.
        for _ in 0..workers {
            publish(Act::None, false).await?;
        }
        within("tasks before the abort", async {
            while run.done.load(Ordering::SeqCst) < workers as u64 {
                run.notify.notified().await;
            }
        })
        .await?;
    }
    let before = run.count();
    for _ in 0..busy {
        publish(Act::Abortable, rng.chance(50)).await?;
    }
    within("starting operations", async {
        while run.count() < before + busy {
            tokio::task::yield_now().await;
        }
    })
    .await?;
    for _ in 0..backlog {
        publish(Act::None, rng.chance(50)).await?;
    }
    if rng.chance(50) {
        rest(virt).await;
    }
    // Commands.
    // (Now and then the abort of everything is one among many.)
    let others = if rng.chance(8) { rng.range(6, 400) } else { rng.below(6) };
    let mut keys: Vec<String> = (0..others)
        .map(|_| match rng.below(if others > 6 { 12 } else { 4 }) {
            4.. => format!("pv-job-{:x}", rng.u64()),
            0 => "pv-no-such-job".to_string(),
            1 => id2.clone(),
            2 => COMMAND_IPC_ABORT_ALL_KEY.to_string(),
            _ => format!("pv-{:x}", rng.below(3)),
        })
        .collect();
    keys.insert(rng.usize(keys.len() + 1), COMMAND_IPC_ABORT_ALL_KEY.to_string());
    for k in &keys {
        command(&rt, k).await?;
        if rng.chance(30) {
            for _ in 0..rng.range(1, 6) {
                tokio::task::yield_now().await;
            }
        } else if rng.chance(10) {
            rest(virt).await;
        }
    }
    let names: Vec<&str> = keys
        .iter()
        .take(40)
        .map(|k| if k == COMMAND_IPC_ABORT_ALL_KEY { "ALL" } else if *k == id2 { "job" } else { "other" })
        .collect();
    let what = format!("{workers} workers, {busy} of them busy, after the commands {names:?}");
    // (The waiting ends by itself after a long time in an operation that does
    // not see the signal.)
    let t = std::time::Instant::now();
    while run.abort_seen.load(Ordering::SeqCst) < busy {
        if t.elapsed().as_secs() >= 20 {
            return Err(format!(
                "{what}: only {} running operations have seen their abort signal raised after 20 s",
                run.abort_seen.load(Ordering::SeqCst)
            )
            .into());
        }
        _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_micros(200))).await;
    }
    rest(virt).await;
    let begun = run.count();
    ensure!(
        begun <= before + busy,
        "{what}: {} tasks of the backlog were started",
        begun - before - busy
    );
    // Tasks published after that.
    let late = rng.range(1, 2 * workers as u64 + 2);
    for _ in 0..late {
        publish(Act::None, rng.chance(50)).await?;
    }
    rest(virt).await;
    let n = run.count();
    ensure!(n == begun, "{what}: {} tasks published later were started", n - begun);
    if virt {
        // Also after the workers' time for an orderly end.
        tokio::time::sleep(Duration::from_secs(30)).await;
        for _ in 0..3 {
            publish(Act::None, rng.chance(50)).await?;
        }
        rest(virt).await;
        let n = run.count();
        ensure!(n == begun, "{what}: {} tasks were started 30 s later", n - begun);
    }
    drop((receiver, receiver2));
    Ok(Seen {
        sig: mix(names.iter().fold(busy as u64, |h, n| mix(h, n.len() as u64)), mix(workers as u64, run.order_sig())),
        nontrivial: true,
        sample: Some(json!({"workers": workers, "running": busy, "backlog": backlog, "commands": names, "published_later": late})),
        counts: vec![("abort_signals_seen", busy as u64), ("tasks_not_started", backlog as u64 + late), ("commands", keys.len() as u64)],
    })
}

fn one_virt(seed: u64, _: &Ctx) -> Res {
    vt(one(seed, true))
}
fn one_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, one(seed, false))
}

async fn one(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = if rng.chance(6) { rng.range(7, 40) } else { rng.range(1, 6) } as usize;
    let rt = Arc::new(runtime(workers, any_serializer(&mut rng)).await?);
    if virt && rng.chance(50) {
        // The workers have been there for a while.
        tokio::time::sleep(Duration::from_millis(rng.below(130_000))).await;
    }
    let op = Step(3);
    let jobs = if rng.chance(10) { rng.range(6, 120) } else { rng.range(2, 5) } as usize;
    let runs: Vec<RunGuard> = (0..jobs).map(|_| ledger::new_run(rng.u64(), ledger::Delay::None)).collect();
    let mut aborted: Vec<bool> = (0..jobs).map(|_| rng.chance(45)).collect();
    aborted[0] = true;
    aborted[1] = false;
    let mut channels = vec![];
    for _ in 0..jobs {
        channels.push(rt.lease_coordinated_task_channel::<Step, u64>().await?);
    }
    let mut published = vec![0u64; jobs];
    macro_rules! publish {
        ($j:expr, $act:expr) => {{
            let j = $j;
            let item = Item { run: runs[j].id, idx: published[j], act: $act, ..Default::default() };
            channels[j]
                .1
                .publish(&Task { routing_key: channels[j].0.clone(), metadata: published[j], op: &op, input: item })
                .await?;
            published[j] += 1;
        }};
    }
    // All workers are busy at the gates, with a backlog behind.
    let mut gated: Vec<usize> = (0..workers).map(|_| rng.usize(jobs)).collect();
    if rng.chance(50) {
        gated[0] = 0;
    }
    for j in &gated {
        publish!(*j, Act::Gate);
    }
    within("starting operations", async {
        while runs.iter().map(|r| r.waiting()).sum::<usize>() < workers {
            tokio::task::yield_now().await;
        }
    })
    .await?;
    let backlog = rng.below(if jobs > 5 { 3 * jobs as u64 } else { 14 });
    for _ in 0..backlog {
        publish!(rng.usize(jobs), Act::None);
    }
    let mut keys: Vec<String> = (0..jobs).filter(|j| aborted[*j]).map(|j| channels[j].0.clone()).collect();
    for _ in 0..if rng.chance(8) { rng.range(4, 400) } else { rng.below(4) } {
        keys.push(if rng.chance(50) { rng.pick(&keys).clone() } else { format!("pv-{:x}", rng.u64()) });
    }
    rng.shuffle(&mut keys);
    for k in &keys {
        command(&rt, k).await?;
        if rng.chance(30) {
            for _ in 0..rng.range(1, 6) {
                tokio::task::yield_now().await;
            }
        }
    }
    rest(virt).await;
    let begun: Vec<usize> = runs.iter().map(|r| r.count()).collect();
    // More tasks after the command.
    for _ in 0..rng.below(8) {
        publish!(rng.usize(jobs), Act::None);
    }
    for r in &runs {
        r.open_gate();
    }
    let what = |j: usize| {
        format!(
            "job {j} of {jobs} ({} aborted) on {workers} workers, {} of its tasks running",
            aborted.iter().filter(|a| **a).count(),
            begun[j]
        )
    };
    let mut results = 0;
    let mut stopped = vec![];
    let mut open = vec![];
    for (j, (id, sender, mut receiver)) in channels.into_iter().enumerate() {
        if aborted[j] {
            stopped.push((j, id, sender));
            open.push(receiver);
            continue;
        }
        sender.close().await?;
        let mut want: HashMap<u64, u64> = (0..published[j]).map(|i| (i, 1)).collect();
        within(&format!("{}, not aborted,", what(j)), async {
            while let Some((r, acker)) = receiver.next().await {
                acker.ack().await?;
                let r = r?;
                ensure!(want.remove(&r.metadata).is_some(), "{}: result of task {} twice", what(j), r.metadata);
                let idx = r.metadata;
                ensure!(
                    r.output.idx == idx && r.output.val == expected(1, 3, &Item::default()).val,
                    "{}: wrong result of task {idx}",
                    what(j)
                );
                results += 1;
            }
            Ok(())
        })
        .await??;
        ensure!(want.is_empty(), "{}, not aborted: {} of its tasks gave no result", what(j), want.len());
    }
    rest(virt).await;
    // Tasks of the aborted jobs that come within the next minute.
    let mut passed = 0;
    for _ in 0..if virt { rng.below(3) } else { 1 } {
        if virt {
            let ms = rng.range(1, 27_000);
            passed += ms;
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        for (j, id, sender) in &stopped {
            let item = Item { run: runs[*j].id, idx: published[*j], ..Default::default() };
            sender.publish(&Task { routing_key: id.clone(), metadata: published[*j], op: &op, input: item }).await?;
            published[*j] += 1;
        }
        rest(virt).await;
    }
    for (j, r) in runs.iter().enumerate() {
        let seen = r.abort_seen.load(Ordering::SeqCst);
        ensure!(seen == 0, "{}: {seen} running operations had their abort signal raised by an abort of a job", what(j));
        let n = r.count();
        if aborted[j] {
            ensure!(n == begun[j], "{}, aborted {passed} ms ago: {} of its tasks were started afterwards", what(j), n - begun[j]);
        } else {
            ensure!(n as u64 == published[j], "{}, not aborted: {n} of {} tasks were executed", what(j), published[j]);
        }
    }
    let skipped: u64 = (0..jobs).filter(|j| aborted[*j]).map(|j| published[j] - begun[j] as u64).sum();
    Ok(Seen {
        sig: runs.iter().fold(mix(workers as u64, keys.len() as u64), |h, r| mix(h, r.order_sig())),
        nontrivial: true,
        sample: Some(json!({"workers": workers, "jobs": jobs, "aborted": aborted, "running": begun, "published": published})),
        counts: vec![("tasks_not_started", skipped), ("results_of_other_jobs", results), ("commands", keys.len() as u64)],
    })
}

/// Over a broker: the commands reach every worker.
fn amqp(seed: u64, _: &Ctx) -> Res {
    mt(2 + (seed % 3) as usize, over_broker(seed))
}

async fn over_broker(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let b = broker(&mut rng)?;
    let kind = any_serializer(&mut rng);
    let rt = leader(&b, kind, None).await?;
    let n_workers = rng.range(1, 4) as usize;
    let mut ws = vec![];
    for _ in 0..n_workers {
        ws.push(worker(&b, kind, None).await?);
    }
    let everything = rng.chance(50);
    let op = Step(5);
    let runs = [ledger::new_run(seed, ledger::Delay::None), ledger::new_run(seed, ledger::Delay::None)];
    let jobs = [
        rt.lease_coordinated_task_channel::<Step, u64>().await?,
        rt.lease_coordinated_task_channel::<Step, u64>().await?,
    ];
    let [(id0, s0, mut r0), (id1, s1, mut r1)] = jobs;
    let mut published = [0u64; 2];
    macro_rules! publish {
        ($j:expr, $act:expr) => {{
            let j: usize = $j;
            let (id, s) = if j == 0 { (&id0, &s0) } else { (&id1, &s1) };
            let item = Item { run: runs[j].id, idx: published[j], act: $act, ..Default::default() };
            s.publish(&Task { routing_key: id.clone(), metadata: published[j], op: &op, input: item }).await?;
            published[j] += 1;
        }};
    }
    // Some workers execute something.
    let busy = rng.usize(n_workers + 1);
    for _ in 0..busy {
        publish!(rng.usize(2), if everything { Act::Abortable } else { Act::Gate });
    }
    until(&b, "starting operations", async {
        while runs[0].count() + runs[1].count() < busy {
            tokio::time::sleep(Duration::from_micros(300)).await;
        }
    })
    .await?;
    // A backlog, if it stays one.
    let backlog = if busy == n_workers { rng.usize(5) } else { 0 };
    for _ in 0..backlog {
        publish!(rng.usize(2), Act::None);
    }
    let mut keys: Vec<String> = (0..rng.below(3)).map(|i| format!("pv-{i}")).collect();
    if everything {
        if rng.chance(40) {
            keys.push(id0.clone());
        }
        keys.push(COMMAND_IPC_ABORT_ALL_KEY.into());
    } else {
        keys.push(id0.clone());
    }
    rng.shuffle(&mut keys);
    for k in &keys {
        command(&rt, k).await?;
    }
    let what = format!(
        "{n_workers} workers on a broker, {busy} of them busy, after {} commands, one to abort {}",
        keys.len(),
        if everything { "everything" } else { "a job" }
    );
    // Each worker has been given all of them.
    let conns: Vec<u64> = ws.iter().map(|w| w.conn).collect();
    at_broker(&b, &format!("{what}: the delivery of the commands to each worker"), |st| {
        conns.iter().all(|c| {
            st.log
                .iter()
                .filter(|e| e.conn == *c && matches!(&e.ev, Ev::Deliver { queue, .. } if queue != TASK_IPC_ROUTING_KEY))
                .count()
                >= keys.len()
        })
    })
    .await?;
    if everything {
        let t = std::time::Instant::now();
        let seen = || runs.iter().map(|r| r.abort_seen.load(Ordering::SeqCst)).sum::<usize>();
        while seen() < busy {
            if t.elapsed().as_secs() >= 20 {
                return Err(format!(
                    "{what}: only {} running operations have seen their abort signal raised after 20 s",
                    seen()
                )
                .into());
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    rest(false).await;
    let begun = [runs[0].count(), runs[1].count()];
    let late = rng.range(1, 4);
    for _ in 0..late {
        publish!(0, Act::None);
        publish!(1, Act::None);
    }
    for r in &runs {
        r.open_gate();
    }
    let mut results = 0;
    if everything {
        rest(false).await;
        let n = runs[0].count() + runs[1].count();
        ensure!(n == busy, "{what}: {} tasks were started afterwards", n - busy);
    } else {
        // The other job completes.
        s1.close().await?;
        let mut left: Vec<u64> = (0..published[1]).collect();
        until(&b, &format!("{what}: the other job"), async {
            while let Some((r, acker)) = r1.next().await {
                acker.ack().await?;
                let r = r?;
                let Some(i) = left.iter().position(|x| *x == r.metadata) else {
                    return Err(Bad::Violation(format!("{what}: a result of task {} twice", r.metadata)));
                };
                left.swap_remove(i);
                results += 1;
            }
            Ok(())
        })
        .await??;
        ensure!(left.is_empty(), "{what}: {} tasks of the other job gave no result", left.len());
        // The tasks of the aborted job have been refused.
        at_broker(&b, &format!("{what}: settling the tasks of the aborted job"), |st| {
            st.ready(TASK_IPC_ROUTING_KEY) == 0 && conns.iter().all(|c| st.held(*c, TASK_IPC_ROUTING_KEY).is_empty())
        })
        .await?;
        let n = runs[0].count();
        ensure!(n == begun[0], "{what}: {} tasks of the aborted job were started afterwards", n - begun[0]);
        let seen = runs[0].abort_seen.load(Ordering::SeqCst) + runs[1].abort_seen.load(Ordering::SeqCst);
        ensure!(seen == 0, "{what}: {seen} running operations had their abort signal raised by an abort of a job");
        ensure!(ws.iter().all(|w| !w.ended.load(Ordering::SeqCst)), "{what}: a worker stopped");
    }
    drop((r0.next(), s0));
    let sig = b.state().log.iter().fold(n_workers as u64, |h, e| match &e.ev {
        Ev::Deliver { msg, .. } => mix(h, mix(e.conn, *msg)),
        _ => h,
    });
    Ok(Seen {
        sig,
        nontrivial: true,
        sample: Some(json!({"workers": n_workers, "busy": busy, "commands": keys.len(), "abort_all": everything})),
        counts: vec![
            ("commands", keys.len() as u64),
            ("workers_reached", n_workers as u64),
            ("tasks_not_started", late * if everything { 2 } else { 1 } + backlog as u64),
            ("results_of_other_jobs", results),
        ],
    })
}
