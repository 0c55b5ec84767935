//! C26: malformed broker messages do not stop a consumer.
use std::{
    collections::HashMap,
    sync::{atomic::Ordering, Arc, Mutex},
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    directive::Directive,
    queue::{Connection, QueueHandle, SyndicationMode},
    runtime::{CommandIpc, COMMAND_IPC_ABORT_ALL_KEY, COMMAND_IPC_ROUTING_KEY, TASK_IPC_ROUTING_KEY},
    serializer::Serializer,
    task::{AnyTask, AnyTaskResult, Task},
};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, connect, leader, until, worker},
    c09::{any_ser, options, Msg},
    common::{any_len, any_pace, check_outputs, check_tally, items, paced_ok},
};
use crate::{
    broker::{Broker, Ev},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt},
    ledger,
    ops::{expected, Act, Item, Step},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        rule: "consumer: one case has queues with well-formed and malformed messages (empty, random, truncated, of another \
               type or serializer) in generated order and consumers of generated prefetch; runtime: one case runs maps while \
               malformed messages are injected into the task queue, the result queue and the command exchange. The \
               well-formed messages must arrive, nothing else, and no malformed one may stay unsettled. Distinct by the \
               broker's log",
        families: vec![
            Family { name: "consumer", run: consumer, quick: 400, thorough: 15, threads: 6, secs: 30, min: 30 },
            Family { name: "runtime", run: runtime, quick: 250, thorough: 15, threads: 6, secs: 30, min: 30 },
            Family { name: "command", run: command, quick: 60, thorough: 15, threads: 6, secs: 30, min: 10 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "malformed means that decoding as the expected type fails",
        ],
        allowed_panics: vec![],
    }
}

/// Bytes that don't decode as a `T`, made from those of a well-formed message.
fn malformed<T: paladin::serializer::Serializable>(rng: &mut Rng, good: &[u8], ser: Serializer) -> Vec<u8> {
    loop {
        let b = match rng.below(6) {
            0 => vec![],
            1 => {
                let n = rng.range(1, 60) as usize;
                rng.bytes(n)
            }
            2 => vec![0xff; rng.range(1, 3000) as usize],
            3 | 4 if !good.is_empty() => good[..rng.usize(good.len())].to_vec(),
            _ => {
                let mut b = good.to_vec();
                for _ in 0..rng.range(1, 4) {
                    if !b.is_empty() {
                        let i = rng.usize(b.len());
                        b[i] = rng.u64() as u8;
                    }
                }
                b
            }
        };
        if ser.from_bytes::<T>(&b).is_err() {
            return b;
        }
    }
}

fn sig(b: &Broker) -> u64 {
    b.state().log.iter().fold(7, |h, e| {
        mix(
            h,
            match &e.ev {
                Ev::Deliver { msg, .. } => mix(e.conn, 3 * msg),
                Ev::Ack { msg, .. } => mix(e.conn, 3 * msg + 1),
                Ev::Nack { msg, .. } => mix(e.conn, 3 * msg + 2),
                _ => 0,
            },
        )
    })
}

/// Every malformed message was settled once, and not put back.
fn settled(b: &Broker, bad: &[u64], deliveries: u32) -> Result<(), Bad> {
    let st = b.state();
    let mut delivered: HashMap<u64, u32> = HashMap::new();
    let mut seen: HashMap<u64, u32> = HashMap::new();
    for e in &st.log {
        match &e.ev {
            Ev::Deliver { msg, .. } => *delivered.entry(*msg).or_default() += 1,
            Ev::Ack { msg, .. } => *seen.entry(*msg).or_default() += 1,
            Ev::Nack { msg, requeue, .. } => {
                ensure!(!requeue || !bad.contains(msg), "a malformed message is delivered again");
                *seen.entry(*msg).or_default() += 1;
            }
            Ev::Error { text, .. } => return Err(format!("the library violated the protocol: {text}").into()),
            _ => {}
        }
    }
    // (Those of result queues may have gone with them.)
    let existing = st.queue_names();
    let gone: std::collections::HashSet<u64> = st
        .log
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Deliver { msg, queue, .. } if !existing.contains(queue) => Some(*msg),
            _ => None,
        })
        .collect();
    for m in bad.iter().filter(|m| !gone.contains(m)) {
        let (d, s) = (delivered.get(m).copied().unwrap_or(0), seen.get(m).copied().unwrap_or(0));
        ensure!(d == s && d <= deliveries, "a malformed message was delivered {d} times and settled {s} times");
    }
    Ok(())
}

fn consumer(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let ser = any_ser(&mut rng);
        let broadcast = rng.chance(30);
        let mode = if broadcast { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce };
        let opt = options(&mut rng, mode);
        let (_, c) = connect(&b, *rng.pick(&[None, Some(1), Some(2), Some(6)]), ser).await?;
        let q = c.declare_queue("mixed", opt).await?;
        let got: Arc<Mutex<Vec<u32>>> = Default::default();
        let n_consumers = rng.range(1, 3);
        let mut tasks = vec![];
        let early = broadcast || rng.chance(50);
        let n = rng.range(1, 30) as u32;
        let (mut good, mut bad) = (vec![], vec![]);
        let mut start = 0;
        macro_rules! consume {
            () => {
                while start < n_consumers {
                    let mut s = q.declare_consumer::<Msg>(&format!("c{start}")).await?;
                    start += 1;
                    let got = got.clone();
                    let nack = rng.chance(20);
                    tasks.push(tokio::spawn(async move {
                        while let Some((m, acker)) = s.next().await {
                            got.lock().unwrap().push(if m == Msg::new(m.publisher, m.seq) { m.seq } else { u32::MAX });
                            _ = if nack { acker.nack().await } else { acker.ack().await };
                        }
                    }));
                }
            };
        }
        if early {
            consume!();
        }
        for seq in 0..n {
            let bytes = ser.to_bytes(&Msg::new(1, seq))?;
            let (ex, key) = if broadcast { ("mixed", "") } else { ("", "mixed") };
            let run = if rng.chance(30) { rng.range(1, 10) } else { rng.below(2) };
            for _ in 0..run {
                let m = malformed::<Msg>(&mut rng, &bytes, ser);
                bad.push(b.publish(ex, key, m));
            }
            good.push(b.publish(ex, key, bytes.to_vec()));
        }
        for _ in 0..rng.below(4) {
            let m = malformed::<Msg>(&mut rng, &[1, 2, 3, 4], ser);
            bad.push(b.publish(if broadcast { "mixed" } else { "" }, if broadcast { "" } else { "mixed" }, m));
        }
        consume!();
        let want = n as usize * if broadcast { n_consumers as usize } else { 1 };
        let g = got.clone();
        at_broker(&b, &format!("the delivery of {n} well-formed messages among {} malformed ones", bad.len()), |st| {
            let queues: usize = st.queue_names().iter().map(|q| st.ready(q)).sum();
            g.lock().unwrap().len() >= want && st.unsettled(None) == 0 && queues == 0
        })
        .await?;
        let mut got = got.lock().unwrap().clone();
        got.sort();
        let mut expect: Vec<u32> = (0..n).collect();
        if broadcast {
            expect = expect.into_iter().flat_map(|i| vec![i; n_consumers as usize]).collect();
        }
        ensure!(got == expect, "of {n} well-formed messages among {} malformed ones, {got:?} arrived", bad.len());
        settled(&b, &bad, if broadcast { n_consumers as u32 } else { 1 })?;
        for t in &tasks {
            ensure!(!t.is_finished(), "a consumer ended");
            t.abort();
        }
        Ok(Seen {
            sig: sig(&b),
            nontrivial: !bad.is_empty(),
            sample: Some(json!({"broadcast": broadcast, "consumers": n_consumers, "messages": n, "malformed": bad.len()})),
            counts: vec![("messages", n as u64), ("malformed", bad.len() as u64)],
        })
    })
}

fn runtime(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let ser = match kind {
            paladin::config::Serializer::Postcard => Serializer::Postcard,
            paladin::config::Serializer::Cbor => Serializer::Cbor,
        };
        let rt = leader(&b, kind, None).await?;
        let n_workers = rng.range(1, 4) as usize;
        let mut ws = vec![];
        for _ in 0..n_workers {
            ws.push(worker(&b, kind, None).await?);
        }
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = any_len(&mut rng, 60).max(1);
        let op = Step(rng.u64());
        let xs: Vec<(usize, Item)> =
            items(&mut rng, run.id, &(0..n).collect::<Vec<_>>(), false).into_iter().enumerate().collect();
        let want: HashMap<usize, Item> = xs.iter().map(|(i, x)| (*i, expected(1, op.0, x))).collect();
        let input = paced_ok(xs, any_pace(&mut rng), seed, 3);
        // Well-formed messages to derive malformed ones from.
        let task = Task { routing_key: "nowhere".into(), metadata: 1u64, op: &op, input: Item::default() };
        let task = ser.to_bytes(&task.as_any_task(ser)?)?;
        let result = ser.to_bytes(&AnyTaskResult::Err("pv-not-to-be-seen".into()))?;
        let cmd = ser.to_bytes(&CommandIpc::Abort { routing_key: COMMAND_IPC_ABORT_ALL_KEY.into() })?;
        let job = async {
            let mut out = Directive::map(input, &op).run(&rt).await?;
            let mut got = vec![];
            while let Some(x) = out.next().await {
                got.push(x?);
            }
            Ok::<_, anyhow::Error>(got)
        };
        let control = async {
            let mut bad = vec![];
            for _ in 0..rng.range(1, 12) {
                match rng.below(3) {
                    0 => {
                        let m = malformed::<AnyTask>(&mut rng, &task, ser);
                        bad.push(b.publish("", TASK_IPC_ROUTING_KEY, m));
                    }
                    1 => {
                        let queue = b
                            .state()
                            .queue_names()
                            .into_iter()
                            .find(|q| q != TASK_IPC_ROUTING_KEY && !q.starts_with("amq."));
                        if let Some(q) = queue {
                            let m = malformed::<AnyTaskResult>(&mut rng, &result, ser);
                            bad.push(b.publish("", &q, m));
                        }
                    }
                    _ => {
                        let m = malformed::<CommandIpc>(&mut rng, &cmd, ser);
                        bad.push(b.publish(COMMAND_IPC_ROUTING_KEY, "", m));
                    }
                }
                if rng.chance(60) {
                    tokio::time::sleep(std::time::Duration::from_micros(rng.below(2000))).await;
                }
            }
            bad
        };
        let (got, bad) = until(&b, "a map among malformed messages", async { tokio::join!(job, control) }).await?;
        check_outputs("map among malformed messages", &got?, &want)?;
        check_tally(&run, 0, 0..n as u64)?;
        at_broker(&b, "the settlement of malformed messages", |st| {
            let queues: usize = st.queue_names().iter().map(|q| st.ready(q)).sum();
            st.unsettled(None) == 0 && queues == 0
        })
        .await?;
        // Everyone still works.
        let run2 = ledger::new_run(seed, ledger::Delay::None);
        let xs: Vec<(usize, Item)> = (0..n_workers)
            .map(|i| (i, Item { run: run2.id, idx: i as u64, act: Act::Gate, ..Default::default() }))
            .collect();
        let want2: HashMap<usize, Item> = xs.iter().map(|(i, x)| (*i, expected(1, op.0, x))).collect();
        let job = async {
            let mut out = Directive::map(paced_ok(xs, super::common::Pace::Burst, 0, 1), &op).run(&rt).await?;
            let mut got = vec![];
            while let Some(x) = out.next().await {
                got.push(x?);
            }
            Ok::<_, anyhow::Error>(got)
        };
        let control = async {
            while run2.waiting() < n_workers {
                tokio::time::sleep(std::time::Duration::from_micros(300)).await;
            }
            run2.open_gate();
        };
        let (got, ()) =
            until(&b, "a map that needs every worker, after malformed messages,", async { tokio::join!(job, control) }).await?;
        check_outputs("map after malformed messages", &got?, &want2)?;
        settled(&b, &bad, n_workers as u32)?;
        Ok(Seen {
            sig: sig(&b),
            nontrivial: !bad.is_empty(),
            sample: Some(json!({"workers": n_workers, "elements": n, "malformed": bad.len()})),
            counts: vec![("elements", n as u64), ("malformed", bad.len() as u64)],
        })
    })
}

/// A command that follows malformed ones is still obeyed.
fn command(seed: u64, _: &Ctx) -> Res {
    mt(2, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let ser = match kind {
            paladin::config::Serializer::Postcard => Serializer::Postcard,
            paladin::config::Serializer::Cbor => Serializer::Cbor,
        };
        let rt = leader(&b, kind, None).await?;
        let n_workers = rng.range(1, 3) as usize;
        let mut ws = vec![];
        for _ in 0..n_workers {
            ws.push(worker(&b, kind, None).await?);
        }
        let run = ledger::new_run(seed, ledger::Delay::None);
        let op = Step(rng.u64());
        let (id, sender, _receiver) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
        for i in 0..n_workers as u64 {
            let item = Item { run: run.id, idx: i, act: Act::Abortable, ..Default::default() };
            sender.publish(&Task { routing_key: id.clone(), metadata: i, op: &op, input: item }).await?;
        }
        let r = run.0.clone();
        until(&b, "execution", async move {
            while r.running.load(Ordering::SeqCst) < n_workers {
                tokio::time::sleep(std::time::Duration::from_micros(300)).await;
            }
        })
        .await?;
        let cmd = ser.to_bytes(&CommandIpc::Abort { routing_key: COMMAND_IPC_ABORT_ALL_KEY.into() })?;
        let n = rng.range(1, 8);
        for _ in 0..n {
            let m = malformed::<CommandIpc>(&mut rng, &cmd, ser);
            b.publish(COMMAND_IPC_ROUTING_KEY, "", m);
        }
        b.publish(COMMAND_IPC_ROUTING_KEY, "", cmd.to_vec());
        let r = run.0.clone();
        until(&b, &format!("an abort of everything after {n} malformed commands"), async move {
            while r.abort_seen.load(Ordering::SeqCst) < n_workers {
                tokio::time::sleep(std::time::Duration::from_micros(300)).await;
            }
        })
        .await?;
        Ok(Seen {
            sig: sig(&b),
            nontrivial: true,
            sample: Some(json!({"workers": n_workers, "malformed": n})),
            counts: vec![("malformed", n), ("aborted", n_workers as u64)],
        })
    })
}
