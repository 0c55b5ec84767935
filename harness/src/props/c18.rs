//! C18: workers settle every broker delivery exactly once, and only when done.
use std::{
    collections::HashMap,
    sync::{atomic::Ordering, Arc},
    time::{Duration, Instant},
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    runtime::TASK_IPC_ROUTING_KEY,
    serializer::Serializer,
    task::{AnyTask, AnyTaskResult, Task},
};
use serde_json::json;

use super::amqp::{at_broker, broker, leader, until, worker, Worker};
use crate::{
    broker::{Ev, State},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt},
    ledger::{self, RunGuard},
    ops::{Act, Item, Step},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "one case is a fake broker with delays, a leader with 1 to 3 jobs and 1 to 4 workers on real connections, and up \
               to 40 (rarely 400) tasks that succeed, fail and are ignored, fail transiently, sleep, or wait at a gate while the broker is \
               looked at; or (terminate) some that fail for good or panic. The broker's log of deliveries, settlements and \
               published results is compared with the log of executions. Distinct by the broker's log",
        families: vec![
            Family { name: "settle", run: settle, quick: 350, thorough: 15, threads: 6, secs: 30, min: 30 },
            Family { name: "terminate", run: terminate, quick: 250, thorough: 15, threads: 6, secs: 30, min: 30 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "a task interrupted by an abort of everything is only checked to be settled at most once and without a result",
        ],
        allowed_panics: vec![],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Ok,
    Ignored,
    /// With an error result.
    Fails,
}

fn any_act(rng: &mut Rng, gate: bool) -> (Act, Fate) {
    let transient = |rng: &mut Rng, fails: u32, retries: u32, ignore: bool| Act::Transient {
        fails,
        retries,
        after_ms: if rng.chance(50) { 0 } else { rng.range(1, 8) as u32 },
        ignore,
        msg: "pv-transient".into(),
        then: Box::default(),
    };
    match rng.below(12) {
        0 => (Act::Sleep(rng.range(10, 4000) as u32), Fate::Ok),
        1 | 2 => (Act::Fatal { ignore: true, msg: "pv-ignored".into() }, Fate::Ignored),
        3 => {
            let k = rng.range(1, 3) as u32;
            (transient(rng, k, k, true), Fate::Ok)
        }
        4 => {
            let k = rng.range(1, 3) as u32;
            (transient(rng, k + 2, k, true), Fate::Ignored)
        }
        5 | 6 if gate => (Act::Gate, Fate::Ok),
        _ => (Act::None, Fate::Ok),
    }
}

fn failing(rng: &mut Rng, idx: u64) -> Act {
    match rng.below(3) {
        0 => Act::Fatal { ignore: false, msg: format!("pv-fatal-{idx}.") },
        1 => Act::Panic,
        _ => Act::Transient {
            fails: 3,
            retries: 1,
            after_ms: rng.below(3) as u32,
            ignore: false,
            msg: format!("pv-fatal-{idx}."),
            then: Box::default(),
        },
    }
}

/// The history of one task at the broker.
#[derive(Default, Debug)]
struct History {
    routing_key: String,
    delivered: u32,
    acks: Vec<Instant>,
    nacks: Vec<(Instant, bool)>,
    requeued: u32,
    results: Vec<String>,
}

struct Book {
    tasks: HashMap<u64, History>,
    /// Errors, by result queue.
    errors: Vec<(String, String)>,
}

/// Reads the broker's log; tasks are identified by their metadata.
fn book(st: &State, ser: Serializer) -> Result<Book, Bad> {
    let mut ids: HashMap<u64, u64> = HashMap::new();
    let mut tasks: HashMap<u64, History> = HashMap::new();
    let mut errors = vec![];
    let task_queue = TASK_IPC_ROUTING_KEY;
    for e in &st.log {
        match &e.ev {
            Ev::Publish { exchange, key, msg, persistent, .. } if exchange.is_empty() => {
                ensure!(*persistent, "a message to {key} is not persistent");
                let body = &st.bodies[msg];
                if key == task_queue {
                    let t: AnyTask = ser.from_bytes(body)?;
                    let id: u64 = t.serializer.from_bytes(&t.metadata)?;
                    ensure!(
                        tasks.insert(id, History { routing_key: t.routing_key, ..Default::default() }).is_none(),
                        "task {id} was published twice"
                    );
                    ids.insert(*msg, id);
                } else {
                    match ser.from_bytes::<AnyTaskResult>(body)? {
                        AnyTaskResult::Ok(o) => {
                            let id: u64 = o.serializer.from_bytes(&o.metadata)?;
                            let Some(h) = tasks.get_mut(&id) else {
                                return Err(format!("a result of task {id}, which was not published").into());
                            };
                            h.results.push(key.clone());
                        }
                        AnyTaskResult::Err(m) => errors.push((key.clone(), m)),
                    }
                }
            }
            Ev::Deliver { queue, msg, unacked, .. } if queue == task_queue => {
                ensure!(*unacked <= 1, "a worker holds {unacked} tasks at a time");
                if let Some(h) = ids.get(msg).and_then(|i| tasks.get_mut(i)) {
                    h.delivered += 1;
                }
            }
            Ev::Ack { queue, msg } if queue == task_queue => {
                if let Some(h) = ids.get(msg).and_then(|i| tasks.get_mut(i)) {
                    h.acks.push(e.at);
                }
            }
            Ev::Nack { queue, msg, requeue } if queue == task_queue => {
                if let Some(h) = ids.get(msg).and_then(|i| tasks.get_mut(i)) {
                    h.nacks.push((e.at, *requeue));
                }
            }
            Ev::Requeue { queue, msg } if queue == task_queue => {
                if let Some(h) = ids.get(msg).and_then(|i| tasks.get_mut(i)) {
                    h.requeued += 1;
                }
            }
            Ev::Consume { queue, no_ack, prefetch, .. } if queue == task_queue => {
                ensure!(!no_ack, "a worker takes tasks without acknowledging them");
                ensure!(*prefetch == 1, "a worker takes tasks with a prefetch of {prefetch}");
            }
            Ev::Error { text, .. } => return Err(format!("the library violated the protocol: {text}").into()),
            _ => {}
        }
    }
    Ok(Book { tasks, errors })
}

fn sig(st: &State) -> u64 {
    st.log.iter().fold(7, |h, e| {
        mix(
            h,
            match &e.ev {
                Ev::Deliver { msg, .. } => mix(e.conn, 2 * msg),
                Ev::Ack { msg, .. } | Ev::Nack { msg, .. } => mix(e.conn, 2 * msg + 1),
                Ev::Publish { msg, .. } => mix(e.conn, msg + 77),
                _ => 0,
            },
        )
    })
}

struct Setup {
    b: Arc<crate::broker::Broker>,
    workers: Vec<Worker>,
    ser: Serializer,
    run: RunGuard,
    plan: Vec<(u64, Item, Fate)>,
}

fn settle(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let ser = match kind {
            paladin::config::Serializer::Postcard => Serializer::Postcard,
            paladin::config::Serializer::Cbor => Serializer::Cbor,
        };
        let lead = leader(&b, kind, None).await?;
        let n_workers = rng.range(1, 4) as usize;
        let late = rng.chance(30);
        let mut workers = vec![];
        for _ in 0..if late { 0 } else { n_workers } {
            workers.push(worker(&b, kind, None).await?);
        }
        let delay = ledger::random_delay(&mut rng);
        let run = ledger::new_run(seed, delay);
        let gate = rng.chance(50);
        let n_jobs = rng.range(1, 3) as usize;
        let n = if rng.chance(4) { rng.range(41, 400) } else { rng.range(1, 40) };
        let op = Step(rng.u64());
        let mut leases = vec![];
        for _ in 0..n_jobs {
            leases.push(lead.lease_coordinated_task_channel::<Step, u64>().await?);
        }
        let mut plan = vec![];
        let mut expect = vec![0usize; n_jobs];
        for idx in 0..n {
            let (act, fate) = any_act(&mut rng, gate);
            let j = rng.usize(n_jobs);
            expect[j] += (fate == Fate::Ok) as usize;
            let item = Item { run: run.id, idx, val: rng.u64(), act, pad: super::common::pad(&mut rng), ..Default::default() };
            leases[j]
                .1
                .publish(&Task { routing_key: leases[j].0.clone(), metadata: idx, op: &op, input: item.clone() })
                .await?;
            plan.push((j as u64, item, fate));
        }
        while workers.len() < n_workers {
            workers.push(worker(&b, kind, None).await?);
        }
        let gates = plan.iter().filter(|p| p.1.act == Act::Gate).count();
        let mut looked = 0;
        if gates > 0 {
            // The workers come to wait at the gate (or run out of tasks).
            let most = gates.min(n_workers);
            let (r, bb) = (run.0.clone(), b.clone());
            until(&b, "execution", async move {
                while r.waiting() < most {
                    tokio::time::sleep(Duration::from_micros(500)).await;
                }
                drop(bb);
            })
            .await?;
            let bk = {
                let st = b.state();
                ensure!(
                    run.waiting() != most || st.unsettled(Some(TASK_IPC_ROUTING_KEY)) >= most,
                    "{most} tasks are being executed, but only {} are unsettled",
                    st.unsettled(Some(TASK_IPC_ROUTING_KEY))
                );
                book(&st, ser)?
            };
            for (_, item, _) in plan.iter().filter(|p| p.1.act == Act::Gate) {
                // (It may not have arrived yet.)
                let Some(h) = bk.tasks.get(&item.idx) else { continue };
                ensure!(
                    h.acks.is_empty() && h.nacks.is_empty() && h.results.is_empty(),
                    "task {} is still being executed, and at the broker it is {h:?}",
                    item.idx
                );
                looked += 1;
            }
            run.open_gate();
        }
        let mut ids = vec![];
        let mut consumers = vec![];
        for (j, (id, sender, receiver)) in leases.into_iter().enumerate() {
            ids.push(id);
            let want = expect[j];
            let has_ignored = plan.iter().any(|p| p.0 == j as u64 && p.2 != Fate::Ok);
            consumers.push(async move {
                let mut receiver = receiver;
                sender.close().await?;
                let mut got = vec![];
                while got.len() < want || !has_ignored {
                    let Some((r, acker)) = receiver.next().await else { break };
                    acker.ack().await?;
                    let r = r?;
                    got.push((r.metadata, r.output));
                }
                Ok::<_, anyhow::Error>((got, receiver))
            });
        }
        let results = until(&b, "the jobs", futures::future::join_all(consumers)).await?;
        let mut receivers = vec![];
        let mut received = 0;
        for (j, r) in results.into_iter().enumerate() {
            let (mut got, rec) = r?;
            receivers.push(rec);
            got.sort_by_key(|x| x.0);
            let want: Vec<u64> =
                plan.iter().filter(|p| p.0 == j as u64 && p.2 == Fate::Ok).map(|p| p.1.idx).collect();
            let ids: Vec<u64> = got.iter().map(|x| x.0).collect();
            ensure!(ids == want, "job {j} received the results of tasks {ids:?} instead of {want:?}");
            for (id, out) in &got {
                let item = &plan[*id as usize].1;
                ensure!(*out == crate::ops::expected(1, op.0, item), "the result of task {id} is wrong");
            }
            received += ids.len() as u64;
        }
        at_broker(&b, "the settlement of all tasks", |st| {
            // (A publish returns before the message arrives.)
            st.unsettled(Some(TASK_IPC_ROUTING_KEY)) == 0
                && st.ready(TASK_IPC_ROUTING_KEY) == 0
                && st.log.iter().filter(|e| matches!(&e.ev, Ev::Publish { key, .. } if key == TASK_IPC_ROUTING_KEY)).count()
                    >= n as usize
        })
        .await?;
        let s = Setup { b, workers, ser, run, plan };
        let st = s.b.state();
        let bk = book(&st, s.ser)?;
        let ends = s.run.ends.lock().unwrap().clone();
        let tally = s.run.tally(0);
        for (j, item, fate) in &s.plan {
            let i = item.idx;
            let h = bk.tasks.get(&i).ok_or(format!("task {i} did not reach the broker"))?;
            ensure!(h.routing_key == ids[*j as usize], "task {i} has the routing key of another job");
            ensure!(h.delivered == 1 && h.requeued == 0, "task {i} was delivered {} times", h.delivered);
            let settled = h.acks.len() + h.nacks.len();
            ensure!(settled == 1, "task {i} was acknowledged {} and rejected {} times", h.acks.len(), h.nacks.len());
            ensure!(tally.contains_key(&i), "task {i} was settled without having been executed");
            let end = ends[&i];
            let at = h.acks.first().copied().unwrap_or_else(|| h.nacks[0].0);
            ensure!(at >= end, "task {i} was settled before its execution ended");
            match fate {
                Fate::Ok => ensure!(
                    h.acks.len() == 1 && h.results == vec![ids[*j as usize].clone()],
                    "task {i}, which succeeded, is {h:?} at the broker"
                ),
                _ => ensure!(
                    h.nacks.len() == 1 && !h.nacks[0].1 && h.results.is_empty(),
                    "task {i}, whose failure is ignored, is {h:?} at the broker"
                ),
            }
        }
        ensure!(bk.errors.is_empty(), "an error result was published: {:?}", bk.errors.first());
        for (i, w) in s.workers.iter().enumerate() {
            ensure!(!w.ended.load(Ordering::SeqCst), "worker {i} has stopped");
        }
        Ok(Seen {
            sig: sig(&st),
            nontrivial: n > 1,
            sample: Some(json!({"workers": n_workers, "jobs": n_jobs, "tasks": n, "results": received, "gated": gates})),
            counts: vec![("tasks", n), ("results", received), ("looked_at_while_executing", looked)],
        })
    })
}

fn terminate(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let ser = match kind {
            paladin::config::Serializer::Postcard => Serializer::Postcard,
            paladin::config::Serializer::Cbor => Serializer::Cbor,
        };
        let lead = leader(&b, kind, None).await?;
        let n_workers = rng.range(1, 4) as usize;
        let mut workers = vec![];
        for _ in 0..n_workers {
            workers.push(worker(&b, kind, None).await?);
        }
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = rng.range(1, 30);
        let bad = rng.below(n);
        let second = rng.chance(30).then(|| rng.below(n));
        let op = Step(rng.u64());
        let (id, sender, receiver) = lead.lease_coordinated_task_channel::<Step, u64>().await?;
        let mut plan = vec![];
        for idx in 0..n {
            let (act, fate) = if idx == bad || Some(idx) == second {
                (failing(&mut rng, idx), Fate::Fails)
            } else {
                any_act(&mut rng, false)
            };
            let item = Item { run: run.id, idx, val: rng.u64(), act, ..Default::default() };
            sender.publish(&Task { routing_key: id.clone(), metadata: idx, op: &op, input: item.clone() }).await?;
            plan.push((item, fate));
        }
        // The job gets an error.
        let consume = async {
            let mut receiver = receiver;
            while let Some((r, acker)) = receiver.next().await {
                acker.ack().await?;
                if let Err(e) = r {
                    return Ok::<_, anyhow::Error>(Some(format!("{e:#}")));
                }
            }
            Ok(None)
        };
        let err = until(&b, "a job with a failing task", consume).await??;
        ensure!(err.is_some(), "a failed task gave no error");
        // Everything that ended is settled, and results correspond.
        let consistent = |st: &State| -> Result<Option<String>, Bad> {
            let bk = book(st, ser)?;
            let ends = run.ends.lock().unwrap().clone();
            let tally = run.tally(0);
            let mut wait = None;
            let mut failed = 0;
            for (item, fate) in &plan {
                let i = item.idx;
                let Some(h) = bk.tasks.get(&i) else {
                    wait = Some(format!("task {i} did not reach the broker"));
                    continue;
                };
                let settled = h.acks.len() + h.nacks.len();
                ensure!(settled <= 1, "task {i} was acknowledged {} and rejected {} times", h.acks.len(), h.nacks.len());
                ensure!(h.results.len() <= 1, "task {i} has {} results", h.results.len());
                ensure!(h.nacks.iter().all(|x| !x.1), "task {i} was rejected to be delivered again");
                if let Some(at) = h.acks.first() {
                    ensure!(*fate == Fate::Ok, "task {i}, which failed, was acknowledged");
                    ensure!(tally.contains_key(&i), "task {i} was acknowledged without having been executed");
                    ensure!(ends.get(&i).is_some_and(|e| e <= at), "task {i} was acknowledged before its execution ended");
                }
                if h.acks.len() != h.results.len() {
                    wait = Some(format!("task {i} is {h:?} at the broker"));
                }
                failed += (*fate == Fate::Fails && h.nacks.len() == 1 && tally.contains_key(&i)) as usize;
            }
            ensure!(bk.errors.len() <= 1 + second.is_some() as usize, "{} errors were published", bk.errors.len());
            ensure!(bk.errors.iter().all(|e| e.0 == id), "an error was sent to another job");
            if failed == 0 || bk.errors.is_empty() {
                wait = Some("no failing task was rejected".into());
            }
            Ok(wait)
        };
        let mut last = None;
        let mut bad_ = None;
        let r = at_broker(&b, "the settlement of the failing and of the completed tasks", |st| match consistent(st) {
            Ok(w) => {
                last = w;
                last.is_none()
            }
            Err(e) => {
                bad_ = Some(e);
                true
            }
        })
        .await;
        if let Some(e) = bad_ {
            return Err(e);
        }
        r.map_err(|e| match e {
            Bad::Violation(s) => Bad::Violation(format!("{s}; {last:?}")),
            e => e,
        })?;
        tokio::time::sleep(Duration::from_millis(10)).await;
        let st = b.state();
        _ = consistent(&st)?;
        let bk = book(&st, ser)?;
        let settled = bk.tasks.values().filter(|h| h.acks.len() + h.nacks.len() == 1).count();
        let stopped = workers.iter().filter(|w| w.ended.load(Ordering::SeqCst)).count();
        Ok(Seen {
            sig: sig(&st),
            nontrivial: n > 1,
            sample: Some(json!({"workers": n_workers, "tasks": n, "settled": settled, "errors": bk.errors.len(), "error": err})),
            counts: vec![("tasks", n), ("settled_before_abort", settled as u64), ("stopped", stopped as u64)],
        })
    })
}
