//! C25: AMQP queues deliver exactly-once messages to one and broadcasts to all.
use std::{
    collections::{BTreeMap, HashMap},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    queue::{
        amqp::{AMQPConnection, AMQPQueueHandle},
        Connection, DeliveryMode, Publisher, QueueHandle, SyndicationMode,
    },
    serializer::Serializer,
};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, connect, until},
    c09::{any_ser, options, Msg},
    common::alike,
};
use crate::{
    broker::{Broker, Ev, State},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::mt,
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "one case is a fake broker with delays, 1 to 4 connections of generated prefetch, 1 to 3 exactly-once or \
               broadcast queues, concurrent publishers, consumers that acknowledge, reject or keep messages in any order, and \
               (for some) lost connections, late consumers and deleted queues; the messages received are compared with the \
               broker's own log, and that with what was published. Distinct by the broker's log",
        families: vec![
            Family { name: "exactly-once", run: single, quick: 500, thorough: 15, threads: 6, secs: 25, min: 30 },
            Family { name: "broadcast", run: broadcast, quick: 300, thorough: 15, threads: 6, secs: 25, min: 30 },
            Family { name: "deletion", run: deletion, quick: 150, thorough: 15, threads: 6, secs: 25, min: 20 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "publishers' connections are not lost",
        ],
        allowed_panics: vec![],
    }
}

/// What a consumer does with its messages.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Habit {
    Ack,
    Nack,
    /// Keeps up to the prefetch, and settles them in another order.
    Late,
    Mixed,
}

struct Consumer {
    conn: u64,
    /// Received: publisher, sequence number, intact.
    got: Arc<Mutex<Vec<(u32, u32, bool)>>>,
    ended: Arc<AtomicBool>,
    task: tokio::task::JoinHandle<()>,
}

impl Drop for Consumer {
    fn drop(&mut self) {
        self.task.abort();
    }
}

async fn consumer(
    q: &AMQPQueueHandle,
    conn: u64,
    name: &str,
    habit: Habit,
    qos: usize,
    seed: u64,
    rejected: Arc<AtomicU64>,
) -> Result<Consumer, Bad> {
    let mut c = q.declare_consumer::<Msg>(name).await?;
    let got: Arc<Mutex<Vec<_>>> = Default::default();
    let ended = Arc::new(AtomicBool::new(false));
    let (g, e) = (got.clone(), ended.clone());
    let task = tokio::spawn(async move {
        let mut kept = vec![];
        let mut n = 0u64;
        while let Some((m, acker)) = c.next().await {
            n += 1;
            let h = mix(seed, n);
            let intact = m == Msg::new(m.publisher, m.seq);
            g.lock().unwrap().push((m.publisher, m.seq, intact));
            if h % 3 == 0 {
                tokio::time::sleep(Duration::from_micros((h >> 8) % 1500)).await;
            }
            let nack = match habit {
                Habit::Nack => true,
                Habit::Ack | Habit::Late => false,
                Habit::Mixed => (h >> 30) % 3 == 0,
            };
            if habit == Habit::Late {
                kept.push(acker);
                if kept.len() >= qos {
                    while !kept.is_empty() {
                        let a = kept.swap_remove((h >> 20) as usize % kept.len());
                        _ = a.ack().await;
                    }
                }
            } else if nack {
                rejected.fetch_add(1, Ordering::SeqCst);
                _ = acker.nack().await;
            } else {
                _ = acker.ack().await;
            }
        }
        e.store(true, Ordering::SeqCst);
    });
    Ok(Consumer { conn, got, ended, task })
}

/// The messages of a publisher.
fn publish(q: AMQPQueueHandle, publisher: u32, n: u32, seed: u64, direct: bool) -> tokio::task::JoinHandle<anyhow::Result<()>> {
    tokio::spawn(async move {
        let p = q.publisher::<Msg>();
        for seq in 0..n {
            let h = mix(seed, seq as u64);
            if direct {
                q.publish(&Msg::new(publisher, seq)).await?;
            } else {
                p.publish(&Msg::new(publisher, seq)).await?;
            }
            if h % 4 == 0 {
                tokio::time::sleep(Duration::from_micros((h >> 8) % 800)).await;
            }
        }
        p.close().await
    })
}

/// The deliveries of each consumer connection, in order, as decoded by the
/// scenario.
fn deliveries(st: &State, ser: Serializer) -> HashMap<(u64, String), Vec<(u32, u32)>> {
    let mut m: HashMap<(u64, String), Vec<(u32, u32)>> = HashMap::new();
    for e in &st.log {
        if let Ev::Deliver { tag, msg, .. } = &e.ev {
            let x: Msg = ser.from_bytes(&st.bodies[msg]).expect("a message");
            m.entry((e.conn, tag.clone())).or_default().push((x.publisher, x.seq));
        }
    }
    m
}

fn sig(st: &State) -> u64 {
    st.log.iter().fold(7, |h, e| {
        mix(
            h,
            match &e.ev {
                Ev::Deliver { msg, .. } => mix(e.conn, 2 * msg),
                Ev::Ack { msg, .. } | Ev::Nack { msg, .. } => mix(e.conn, 2 * msg + 1),
                Ev::Closed(_) => e.conn,
                _ => 0,
            },
        )
    })
}

fn no_errors(st: &State) -> Result<(), Bad> {
    for e in &st.log {
        if let Ev::Error { text, .. } = &e.ev {
            return Err(Bad::Violation(format!("the library violated the protocol: {text}")));
        }
    }
    Ok(())
}

/// Received by the consumers as delivered to them.
fn faithful(st: &State, ser: Serializer, consumers: &[(String, Consumer)]) -> Result<u64, Bad> {
    let sent = deliveries(st, ser);
    let mut total = 0;
    for (tag, c) in consumers {
        let got = c.got.lock().unwrap();
        total += got.len() as u64;
        let empty = vec![];
        let want = sent.get(&(c.conn, tag.clone())).unwrap_or(&empty);
        let lost = !st.open(c.conn);
        ensure!(
            lost || got.len() == want.len(),
            "consumer {tag} received {} of the {} messages delivered to it",
            got.len(),
            want.len()
        );
        for (i, (p, s, intact)) in got.iter().enumerate() {
            ensure!(*intact, "message {s} of publisher {p} arrived changed");
            ensure!(
                want.get(i) == Some(&(*p, *s)),
                "consumer {tag} received message {s} of publisher {p} where {:?} was delivered",
                want.get(i)
            );
        }
    }
    Ok(total)
}

fn single(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, single_(seed))
}

async fn single_(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let b = broker(&mut rng)?;
    let ser = any_ser(&mut rng);
    let n_queues = rng.range(1, 3);
    let opts: Vec<_> = (0..n_queues).map(|_| options(&mut rng, SyndicationMode::ExactlyOnce)).collect();
    let names = alike(&mut rng, 3);
    let name = |q: usize| names[q].clone();
    // Publishers.
    let (_, pc) = connect(&b, None, ser).await?;
    let n_conns = rng.range(1, 4) as usize;
    let mut conns: Vec<(u64, AMQPConnection, usize)> = vec![];
    for _ in 0..n_conns {
        let qos = *rng.pick(&[None, Some(1), Some(1), Some(2), Some(5), Some(17)]);
        let (id, c) = connect(&b, qos, ser).await?;
        conns.push((id, c, qos.unwrap_or(1) as usize));
    }
    let kills = if n_conns > 1 && rng.chance(50) { rng.range(1, n_conns as u64 - 1) as usize } else { 0 };
    let rejected: Arc<AtomicU64> = Default::default();
    let mut consumers: Vec<(String, Consumer)> = vec![];
    let mut published: Vec<(usize, u32, u32)> = vec![];
    let mut pubs = vec![];
    let early = rng.chance(50);
    let mut start = |rng: &mut Rng, pubs: &mut Vec<_>, handles: &[AMQPQueueHandle]| {
        for p in 0..rng.range(1, 4) as u32 {
            let q = rng.usize(handles.len());
            let n = if rng.chance(3) { rng.range(41, 700) } else { rng.range(1, 40) } as u32;
            published.push((q, p, n));
            pubs.push(publish(handles[q].clone(), p, n, rng.u64(), rng.chance(50)));
        }
    };
    let mut handles = vec![];
    for q in 0..n_queues as usize {
        handles.push(pc.declare_queue(&name(q), opts[q]).await?);
    }
    if early {
        start(&mut rng, &mut pubs, &handles);
    }
    let mut queue_of: HashMap<String, usize> = HashMap::new();
    for (i, (conn, c, qos)) in conns.iter().enumerate() {
        // The last connection serves all queues.
        for (q, opt) in opts.iter().enumerate() {
            if i + 1 < n_conns && rng.chance(40) {
                continue;
            }
            let handle = c.declare_queue(&name(q), *opt).await?;
            for k in 0..rng.range(1, 2) {
                let tag = format!("consumer-{i}-{q}-{k}");
                let habit = *rng.pick(&[Habit::Ack, Habit::Ack, Habit::Mixed, Habit::Nack, Habit::Late]);
                // (Late ones would keep messages for good.)
                let habit = if habit == Habit::Late && i + 1 == n_conns { Habit::Ack } else { habit };
                let qos_ = if habit == Habit::Late { (*qos).min(1 + rng.usize(3)) } else { 1 };
                queue_of.insert(tag.clone(), q);
                consumers.push((
                    tag.clone(),
                    consumer(&handle, *conn, &tag, habit, qos_, rng.u64(), rejected.clone()).await?,
                ));
                let st = b.state();
                let seen = st.log.iter().rev().find_map(|e| match &e.ev {
                    Ev::Consume { queue, tag: t, no_ack, prefetch } if *t == tag => Some((queue.clone(), *no_ack, *prefetch)),
                    _ => None,
                });
                let want = Some((name(q), false, *qos as u16));
                ensure!(
                    seen == want,
                    "a consumer of {} on a connection with prefetch {qos} was declared with (queue, no_ack, prefetch) {seen:?}",
                    name(q)
                );
            }
        }
    }
    if !early {
        start(&mut rng, &mut pubs, &handles);
    }
    let total: u64 = published.iter().map(|x| x.2 as u64).sum();
    // Losses, at any time.
    for (conn, ..) in conns.iter().take(kills) {
        let at = rng.below(total + 1);
        _ = until(&b, "publication", async {
            loop {
                {
                    let st = b.state();
                    let n = st.log.iter().filter(|e| matches!(e.ev, Ev::Deliver { .. })).count() as u64;
                    if n >= at || st.unsettled(None) == 0 && n >= total {
                        break;
                    }
                }
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
        })
        .await;
        b.kill(*conn);
    }
    for p in pubs {
        until(&b, "publishing", p).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
    }
    let lost: Vec<u64> = conns.iter().take(kills).map(|c| c.0).collect();
    // A late consumer may keep the last few.
    let late_holds = |st: &State| -> bool {
        (0..n_queues as usize).all(|q| st.ready(&name(q)) == 0)
    };
    at_broker(&b, "the delivery of all messages", |st| {
        let published_all = st.log.iter().filter(|e| matches!(e.ev, Ev::Publish { .. })).count() as u64 >= total;
        let received: usize = consumers
            .iter()
            .filter(|c| !lost.contains(&c.1.conn))
            .map(|c| c.1.got.lock().unwrap().len())
            .sum();
        let delivered = st
            .log
            .iter()
            .filter(|e| matches!(e.ev, Ev::Deliver { .. }) && !lost.contains(&e.conn))
            .count();
        published_all && late_holds(st) && received == delivered
    })
    .await?;
    let st = b.state();
    no_errors(&st)?;
    let received = faithful(&st, ser, &consumers)?;
    // Published as they should be, each once, in order.
    let mut wire: BTreeMap<(usize, u32), Vec<u32>> = BTreeMap::new();
    let mut delivered: HashMap<u64, u32> = HashMap::new();
    let mut requeued: HashMap<u64, u32> = HashMap::new();
    let (mut acks, mut nacks) = (0u64, 0u64);
    for e in &st.log {
        match &e.ev {
            Ev::Publish { exchange, key, msg, persistent, .. } => {
                let x: Msg = ser.from_bytes(&st.bodies[msg]).map_err(|e| Bad::Violation(format!("published bytes do not decode: {e}")))?;
                let q = (0..n_queues as usize).find(|q| name(*q) == *key);
                ensure!(exchange.is_empty() && q.is_some(), "a message was published to exchange {exchange:?} with key {key:?}");
                let q = q.unwrap();
                ensure!(
                    *persistent == (opts[q].delivery_mode == DeliveryMode::Persistent),
                    "a message of a queue with {:?} was published with persistence {persistent}",
                    opts[q]
                );
                wire.entry((q, x.publisher)).or_default().push(x.seq);
            }
            Ev::Deliver { msg, queue, tag, .. } => {
                *delivered.entry(*msg).or_default() += 1;
                if let Some(q) = queue_of.get(tag) {
                    ensure!(name(*q) == *queue, "consumer {tag} of {} got a message of {queue}", name(*q));
                }
            }
            Ev::Requeue { msg, .. } => *requeued.entry(*msg).or_default() += 1,
            Ev::Nack { requeue, .. } => {
                ensure!(!requeue, "a rejected message is redelivered");
                nacks += 1;
            }
            Ev::Ack { .. } => acks += 1,
            _ => {}
        }
    }
    for (q, p, n) in &published {
        let got = wire.remove(&(*q, *p)).unwrap_or_default();
        // (Two publishers of a queue may have the same number.)
        let same: Vec<u32> = published.iter().filter(|x| x.0 == *q && x.1 == *p).map(|x| x.2).collect();
        let want: Vec<u32> = (0..*n).collect();
        if same.len() == 1 {
            ensure!(got == want, "publisher {p} of {} published {n} messages, and the broker got {:?}", name(*q), got);
        }
    }
    for (m, n) in &delivered {
        let r = requeued.get(m).copied().unwrap_or(0);
        ensure!(*n == r + 1, "message {m} was delivered {n} times and put back {r} times");
    }
    ensure!(delivered.len() as u64 == total, "{} of {total} messages were delivered", delivered.len());
    let rejections = rejected.load(Ordering::SeqCst);
    ensure!(
        nacks <= rejections && (kills > 0 || nacks == rejections || received > acks + nacks),
        "{rejections} messages were rejected, and {nacks} rejections arrived"
    );
    let redelivered = requeued.len() as u64;
    Ok(Seen {
        sig: sig(&st),
        nontrivial: consumers.len() > 1 && total > 2,
        sample: Some(json!({"queues": n_queues, "connections": n_conns, "lost": kills, "consumers": consumers.len(),
            "messages": total, "received": received, "redelivered": redelivered, "rejected": nacks})),
        counts: vec![
            ("messages", total),
            ("received", received),
            ("redelivered", redelivered),
            ("acknowledged", acks),
            ("rejected", nacks),
            ("connections_lost", kills as u64),
        ],
    })
}

fn broadcast(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, broadcast_(seed))
}

async fn broadcast_(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let b = broker(&mut rng)?;
    let ser = any_ser(&mut rng);
    let opt = options(&mut rng, SyndicationMode::Broadcast);
    let other = options(&mut rng, SyndicationMode::Broadcast);
    let (pc_id, pc) = connect(&b, None, ser).await?;
    let names = alike(&mut rng, 2);
    let news = names[0].as_str();
    let q = pc.declare_queue(news, opt).await?;
    let q2 = pc.declare_queue(&names[1], other).await?;
    let n_conns = rng.range(1, 4) as usize;
    let mut conns = vec![];
    for _ in 0..n_conns {
        let qos = *rng.pick(&[None, Some(1), Some(3)]);
        conns.push(connect(&b, qos, ser).await?);
    }
    let rejected: Arc<AtomicU64> = Default::default();
    // Consumers, and the number of messages published before each.
    let mut consumers: Vec<(u32, Consumer)> = vec![];
    let mut sent = 0u32;
    let rounds = rng.range(1, 4);
    let p = q.publisher::<Msg>();
    let mut lost = vec![];
    for round in 0..rounds {
        for _ in 0..rng.range(if round == 0 { 1 } else { 0 }, 3) {
            let (conn, c) = rng.pick(&conns).clone();
            if lost.contains(&conn) {
                continue;
            }
            // (A consumer may also be of the publishers' connection.)
            let own = rng.chance(80);
            let handle = if own { c.declare_queue(news, opt).await? } else { q.clone() };
            let conn = if own { conn } else { pc_id };
            let tag = format!("consumer-{}", consumers.len());
            let habit = *rng.pick(&[Habit::Ack, Habit::Ack, Habit::Mixed, Habit::Nack]);
            consumers.push((sent, consumer(&handle, conn, &tag, habit, 1, rng.u64(), rejected.clone()).await?));
        }
        let concurrent = rng.chance(40);
        let n = rng.range(1, 20) as u32;
        let mut hs = vec![];
        for _ in 0..n {
            let m = Msg::new(1, sent);
            sent += 1;
            if concurrent {
                let q = q.clone();
                hs.push(tokio::spawn(async move { q.publish(&m).await }));
            } else {
                p.publish(&m).await?;
            }
            if rng.chance(10) {
                q2.publish(&Msg::new(2, sent)).await?;
            }
        }
        for h in hs {
            until(&b, "publishing", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
        // The broker has them.
        at_broker(&b, "the publication", |st| {
            st.log.iter().filter(|e| matches!(&e.ev, Ev::Publish { exchange, .. } if exchange == news)).count() as u32 >= sent
        })
        .await?;
        if n_conns > 1 && rng.chance(20) && lost.is_empty() {
            b.kill(conns[0].0);
            lost.push(conns[0].0);
        }
    }
    // Each gets everything from then on.
    let mut want_total = 0;
    for (i, (from, c)) in consumers.iter().enumerate() {
        let gone = lost.contains(&c.conn);
        if !gone {
            let want = (sent - from) as usize;
            want_total += want as u64;
            let got = c.got.clone();
            at_broker(&b, &format!("the delivery of a broadcast to consumer {i} of {}", consumers.len()), |_| {
                got.lock().unwrap().len() >= want
            })
            .await?;
        }
    }
    tokio::time::sleep(Duration::from_millis(3)).await;
    let st = b.state();
    no_errors(&st)?;
    for (i, (from, c)) in consumers.iter().enumerate() {
        let mut got = c.got.lock().unwrap().clone();
        ensure!(got.iter().all(|x| x.2), "a message arrived changed");
        ensure!(got.iter().all(|x| x.0 == 1), "consumer {i} got a message of another queue");
        got.sort();
        let seqs: Vec<u32> = got.iter().map(|x| x.1).collect();
        let want: Vec<u32> = (*from..sent).collect();
        let ok = if lost.contains(&c.conn) { seqs.iter().all(|s| want.contains(s)) } else { seqs == want };
        ensure!(ok, "consumer {i}, declared when {from} of {sent} messages were published, received {seqs:?}");
    }
    for e in &st.log {
        match &e.ev {
            Ev::Publish { exchange, persistent, .. } => {
                let o = if exchange == news { opt } else { other };
                ensure!(
                    *persistent == (o.delivery_mode == DeliveryMode::Persistent),
                    "a message of a queue with {o:?} was published with persistence {persistent}"
                );
            }
            Ev::Nack { requeue, .. } => ensure!(!requeue, "a rejected message is redelivered"),
            Ev::Consume { no_ack, .. } => ensure!(!no_ack, "a consumer doesn't acknowledge"),
            _ => {}
        }
    }
    Ok(Seen {
        sig: sig(&st),
        nontrivial: consumers.len() > 1,
        sample: Some(json!({"connections": n_conns, "lost": lost.len(), "consumers": consumers.len(), "messages": sent, "received": want_total})),
        counts: vec![("messages", sent as u64), ("received", want_total), ("consumers", consumers.len() as u64)],
    })
}

fn deletion(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, deletion_(seed))
}

async fn deletion_(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let b: Arc<Broker> = broker(&mut rng)?;
    let ser = any_ser(&mut rng);
    let opt = options(&mut rng, SyndicationMode::ExactlyOnce);
    let n_conns = rng.range(1, 3) as usize;
    let mut conns = vec![];
    for _ in 0..n_conns {
        conns.push(connect(&b, *rng.pick(&[None, Some(4)]), ser).await?);
    }
    let names = alike(&mut rng, 2);
    let (doomed, kept_name) = (names[0].as_str(), names[1].as_str());
    let rejected: Arc<AtomicU64> = Default::default();
    let mut consumers: Vec<(usize, Consumer)> = vec![];
    for (conn, c) in &conns {
        for (q, name) in names.iter().enumerate() {
            let handle = c.declare_queue(name, opt).await?;
            for _ in 0..rng.range(1, 2) {
                let tag = format!("c-{}", consumers.len());
                consumers.push((q, consumer(&handle, *conn, &tag, Habit::Ack, 1, rng.u64(), rejected.clone()).await?));
            }
        }
    }
    let n = rng.range(0, 20) as u32;
    let hs: Vec<_> = {
        let mut v = vec![];
        for name in &names {
            v.push(publish(conns[0].1.declare_queue(name, opt).await?, 1, n, rng.u64(), true));
        }
        v
    };
    let wait = rng.chance(50);
    let mut hs = hs.into_iter();
    if wait {
        for h in hs.by_ref() {
            until(&b, "publishing", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
    }
    rng.pick(&conns).1.delete_queue(doomed).await?;
    for (q, c) in &consumers {
        if *q == 0 {
            let ended = c.ended.clone();
            at_broker(&b, "a consumer of a deleted queue", |_| ended.load(Ordering::SeqCst)).await?;
        }
    }
    for h in hs {
        until(&b, "publishing", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
    }
    // The other queue is not affected, and the name can be used again.
    let kept: u32 = rng.range(1, 5) as u32;
    let again = conns[0].1.declare_queue(doomed, opt).await?;
    let tag = format!("c-{}", consumers.len());
    let fresh = consumer(&again, conns[0].0, &tag, Habit::Ack, 1, rng.u64(), rejected.clone()).await?;
    for i in 0..kept {
        conns[0].1.declare_queue(kept_name, opt).await?.publish(&Msg::new(2, i)).await?;
        again.publish(&Msg::new(3, i)).await?;
    }
    let counted = |q: usize| -> usize {
        consumers.iter().filter(|c| c.0 == q).map(|c| c.1.got.lock().unwrap().len()).sum()
    };
    let got = fresh.got.clone();
    at_broker(&b, "the delivery of messages after the deletion of another queue", |_| {
        counted(1) as u32 >= n + kept && got.lock().unwrap().len() as u32 >= kept
    })
    .await?;
    let st = b.state();
    no_errors(&st)?;
    ensure!(counted(1) as u32 == n + kept, "a queue of {} messages delivered {}", n + kept, counted(1));
    ensure!(consumers.iter().all(|c| c.0 == 0 || !c.1.ended.load(Ordering::SeqCst)), "a consumer of another queue ended");
    let fresh_got = fresh.got.lock().unwrap().iter().filter(|x| x.0 == 3).count() as u32;
    ensure!(fresh_got == kept, "a queue declared again delivered {fresh_got} of {kept} messages");
    Ok(Seen {
        sig: sig(&st),
        nontrivial: true,
        sample: Some(json!({"connections": n_conns, "consumers": consumers.len(), "messages": n})),
        counts: vec![("deletions", 1), ("consumers_ended", consumers.iter().filter(|c| c.0 == 0).count() as u64)],
    })
}
