//! C09: in-memory exactly-once queues lose, duplicate and reorder nothing.
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::{FutureExt, StreamExt};
use paladin::{
    acker::Acker,
    queue::{
        in_memory::{InMemoryConnection, InMemoryQueueHandle},
        Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions, SyndicationMode,
    },
    serializer::Serializer,
};
use serde::{Deserialize, Serialize};
use serde_json::json;
use tokio::sync::Notify;

use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "one case is a history of concurrent publishers and consumers of one queue (1 to 6 each), with receives \
               abandoned at generated points, consumers dropped and redeclared, and messages published to waiting \
               consumers; checked for loss, duplication, alteration and order by the stamps of publish and receive \
               events. Non-trivial if at least two messages and two parties overlapped; distinct by the history",
        families: vec![
            Family { name: "real-time", run: real, quick: 500, thorough: 15, threads: 2, secs: 25, min: 10 },
            Family { name: "virtual-time", run: virt, quick: 800, thorough: 15, threads: 4, secs: 15, min: 10 },
            Family { name: "wake", run: wake, quick: 1500, thorough: 15, threads: 4, secs: 10, min: 10 },
            Family { name: "backlog", run: backlog, quick: 60, thorough: 12, threads: 4, secs: 15, min: 5 },
        ],
        assumptions: vec!["a consumer receives messages of the type that was published"],
        allowed_panics: vec![],
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Msg {
    pub publisher: u32,
    pub seq: u32,
    pub pad: Vec<u8>,
    pub text: String,
}

impl Msg {
    pub fn new(publisher: u32, seq: u32) -> Msg {
        let h = mix(publisher as u64, seq as u64);
        let n = match h % 50 {
            _ if seq < 64 && (h >> 20) % 90 == 0 => 60_000 + (h >> 30) % 90_000,
            0 => 3000,
            1..=10 => 130,
            11..=20 => 5,
            _ => 0,
        };
        Msg {
            publisher,
            seq,
            pad: (0..n).map(|i| mix(h, i) as u8).collect(),
            text: if h % 3 == 0 { format!("m-{h:x}-ü") } else { String::new() },
        }
    }
}

pub fn options(rng: &mut Rng, syndication_mode: SyndicationMode) -> QueueOptions {
    QueueOptions {
        delivery_mode: if rng.chance(50) { DeliveryMode::Persistent } else { DeliveryMode::Ephemeral },
        syndication_mode,
        durability: if rng.chance(50) { QueueDurability::Durable } else { QueueDurability::NonDurable },
    }
}

pub fn any_ser(rng: &mut Rng) -> Serializer {
    if rng.chance(50) {
        Serializer::Postcard
    } else {
        Serializer::Cbor
    }
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
pub fn stamp() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

#[derive(Clone, Debug)]
struct Got {
    consumer: u32,
    msg: Msg,
    at: u64,
}

fn real(seed: u64, _: &Ctx) -> Res {
    mt(2 + (seed % 5) as usize, history(seed, false))
}
fn virt(seed: u64, _: &Ctx) -> Res {
    vt(history(seed, true))
}

async fn history(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let conn = InMemoryConnection::new(any_ser(&mut rng));
    let opts = options(&mut rng, SyndicationMode::ExactlyOnce);
    let queue = conn.declare_queue("q", opts).await?;
    let publishers = rng.range(1, 6) as u32;
    let consumers = if rng.chance(35) { 1 } else { rng.range(2, 6) as u32 };
    let per = *rng.pick(&[1u32, 5, 30, 120]);
    let total = (publishers * per) as usize;
    let churn = rng.chance(50);
    let abandon = rng.chance(60);
    let received = Arc::new(AtomicUsize::new(0));
    let all = Arc::new(Notify::new());
    let finished = Arc::new(AtomicBool::new(false));
    let log: Arc<Mutex<Vec<Got>>> = Default::default();
    let pubs: Arc<Mutex<HashMap<(u32, u32), (u64, u64)>>> = Default::default();
    let mut tasks = vec![];
    for c in 0..consumers {
        let queue = if rng.chance(50) { queue.clone() } else { conn.declare_queue("q", opts).await? };
        let (received, all, finished, log) = (received.clone(), all.clone(), finished.clone(), log.clone());
        let mut rng = rng.fork();
        tasks.push(tokio::spawn(async move {
            let mut consumer = queue.declare_consumer::<Msg>(&format!("c{c}")).await.unwrap();
            loop {
                if churn && rng.chance(8) {
                    drop(consumer);
                    if rng.chance(30) {
                        tokio::task::yield_now().await;
                    }
                    consumer = queue.declare_consumer::<Msg>(&format!("c{c}")).await.unwrap();
                }
                let item = if abandon && rng.chance(50) {
                    // Abandon the receive after a poll or two, or a short time.
                    match rng.below(4) {
                        0 => match consumer.next().now_or_never() {
                            Some(x) => x,
                            None => {
                                tokio::task::yield_now().await;
                                if finished.load(Ordering::SeqCst) {
                                    break;
                                }
                                continue;
                            }
                        },
                        1 => tokio::select! {
                            biased;
                            x = consumer.next() => x,
                            _ = tokio::task::yield_now() => {
                                if finished.load(Ordering::SeqCst) {
                                    break;
                                }
                                continue
                            },
                        },
                        2 => match tokio::time::timeout(Duration::from_millis(1), consumer.next()).await {
                            Ok(x) => x,
                            Err(_) => {
                                if finished.load(Ordering::SeqCst) {
                                    break;
                                }
                                continue;
                            }
                        },
                        _ => tokio::select! {
                            x = consumer.next() => x,
                            _ = all.notified() => break,
                        },
                    }
                } else {
                    tokio::select! {
                        x = consumer.next() => x,
                        _ = all.notified() => break,
                    }
                };
                let Some((msg, acker)) = item else {
                    return Err("a consumer's stream ended".to_string());
                };
                let at = stamp();
                if rng.chance(80) {
                    _ = acker.ack().await;
                } else {
                    _ = acker.nack().await;
                }
                log.lock().unwrap().push(Got { consumer: c, msg, at });
                if received.fetch_add(1, Ordering::SeqCst) + 1 >= total {
                    finished.store(true, Ordering::SeqCst);
                    for _ in 0..consumers {
                        all.notify_one();
                    }
                    all.notify_waiters();
                }
                if finished.load(Ordering::SeqCst) {
                    break;
                }
                if rng.chance(20) {
                    tokio::task::yield_now().await;
                }
            }
            // A notification may have been consumed on behalf of others.
            all.notify_one();
            Ok(())
        }));
    }
    for p in 0..publishers {
        let queue = queue.clone();
        let pubs = pubs.clone();
        let mut rng = rng.fork();
        let style = rng.below(3);
        tasks.push(tokio::spawn(async move {
            let publisher = queue.publisher::<Msg>();
            for s in 0..per {
                let m = Msg::new(p, s);
                let t0 = stamp();
                let r = if style == 0 { queue.publish(&m).await } else { publisher.publish(&m).await };
                let t1 = stamp();
                r.map_err(|e| format!("publishing failed: {e:#}"))?;
                pubs.lock().unwrap().insert((p, s), (t0, t1));
                match rng.below(12) {
                    0 => tokio::time::sleep(Duration::from_micros(300)).await,
                    1..=4 => tokio::task::yield_now().await,
                    _ => {}
                }
            }
            Ok(())
        }));
    }
    let what = format!("{publishers} publishers of {per} messages to {consumers} consumers");
    within(&format!("receiving the messages of {what}"), async {
        for t in tasks {
            t.await.map_err(|e| Bad::Inconclusive(e.to_string()))?.map_err(Bad::Violation)?;
        }
        Ok::<_, Bad>(())
    })
    .await??;
    _ = virt;
    // Nothing is left over or delivered twice.
    let mut extra = queue.declare_consumer::<Msg>("extra").await?;
    for _ in 0..3 {
        if let Some(Some((m, _))) = extra.next().now_or_never() {
            return Err(format!("{what}: an additional message {}/{} was delivered", m.publisher, m.seq).into());
        }
        tokio::task::yield_now().await;
    }
    let mut log = std::mem::take(&mut *log.lock().unwrap());
    log.sort_by_key(|g| g.at);
    let pubs = pubs.lock().unwrap();
    let mut seen = HashMap::new();
    let mut last: HashMap<(u32, u32), u32> = HashMap::new();
    for g in &log {
        let k = (g.msg.publisher, g.msg.seq);
        ensure!(g.msg == Msg::new(k.0, k.1), "{what}: message {k:?} was altered");
        let Some(p) = pubs.get(&k) else {
            return Err(format!("{what}: message {k:?} was never published").into());
        };
        ensure!(g.at > p.0, "{what}: message {k:?} was received before it was published");
        ensure!(seen.insert(k, g.at).is_none(), "{what}: message {k:?} was delivered twice");
        if let Some(prev) = last.insert((g.consumer, k.0), k.1) {
            ensure!(
                prev < k.1,
                "{what}: consumer {} received message {} of publisher {} after message {prev}",
                g.consumer,
                k.1,
                k.0
            );
        }
    }
    ensure!(seen.len() == total, "{what}: {} messages were received", seen.len());
    if consumers == 1 {
        // Real-time order of the publish calls: no message was received after
        // one whose publication began after its own had completed.
        let mut max_start = 0;
        let mut max_of = (0, 0);
        for g in &log {
            let k = (g.msg.publisher, g.msg.seq);
            let (t0, t1) = pubs[&k];
            ensure!(
                t1 >= max_start,
                "{what}: {k:?} was received after {max_of:?}, which was published later"
            );
            if t0 > max_start {
                max_start = t0;
                max_of = k;
            }
        }
    }
    Ok(Seen {
        sig: log.iter().fold(total as u64, |h, g| mix(h, mix(g.consumer as u64, mix(g.msg.publisher as u64, g.msg.seq as u64)))),
        nontrivial: total >= 2 && publishers + consumers > 2,
        sample: Some(json!({
            "publishers": publishers, "messages_each": per, "consumers": consumers,
            "receives_abandoned": abandon, "consumers_redeclared": churn,
            "first_receives": log.iter().take(10).map(|g| format!("c{}<-p{}/{}", g.consumer, g.msg.publisher, g.msg.seq)).collect::<Vec<_>>(),
        })),
        counts: vec![("messages", total as u64)],
    })
}

/// Waiting consumers, of which some go away, are woken for messages.
fn wake(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let queue = InMemoryQueueHandle::new(any_ser(&mut rng), options(&mut rng, SyndicationMode::ExactlyOnce));
        let n = rng.range(1, 8) as usize;
        let log: Arc<Mutex<Vec<u32>>> = Default::default();
        let mut waiting = vec![];
        for _ in 0..n {
            let mut c = queue.declare_consumer::<Msg>("c").await?;
            let log = log.clone();
            waiting.push(tokio::spawn(async move {
                let (m, _) = c.next().await.unwrap();
                log.lock().unwrap().push(m.seq);
                // Keep the consumer, with whatever it holds.
                futures::future::pending::<()>().await;
            }));
            if rng.chance(70) {
                tokio::task::yield_now().await;
            }
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
        let m = rng.range(1, n as u64 + 3) as usize;
        let mut gone = 0;
        let before = rng.chance(50);
        let kill = rng.usize(n);
        if before {
            for _ in 0..kill {
                let k = rng.usize(waiting.len());
                waiting.swap_remove(k).abort();
                gone += 1;
            }
        }
        for s in 0..m {
            queue.publish(&Msg::new(0, s as u32)).await?;
        }
        if !before {
            // Some go away at the moment they are woken.
            for _ in 0..kill {
                let k = rng.usize(waiting.len());
                waiting.swap_remove(k).abort();
                gone += 1;
            }
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
        let left = n - gone;
        let got = log.lock().unwrap().clone();
        let want = left.min(m);
        ensure!(
            got.len() >= want,
            "{n} consumers were waiting, {gone} went away ({}), {m} messages were published, and only {} received",
            if before { "before" } else { "after" },
            got.len()
        );
        // The rest is still there, for a new consumer.
        let mut c = queue.declare_consumer::<Msg>("late").await?;
        let mut all = got.clone();
        for _ in all.len()..m {
            let (x, _) = within("receiving a message left by a dropped consumer", c.next())
                .await?
                .ok_or(Bad::Violation("stream ended".into()))?;
            all.push(x.seq);
        }
        let extra = tokio::time::timeout(Duration::from_secs(1), c.next()).await;
        ensure!(extra.is_err(), "an additional message was delivered");
        all.sort();
        ensure!(all == (0..m as u32).collect::<Vec<_>>(), "messages received: {all:?} of {m}");
        Ok(Seen {
            sig: mix(mix(n as u64, m as u64), mix(gone as u64, got.iter().fold(before as u64, |h, x| mix(h, *x as u64)))),
            nontrivial: n + m > 2,
            sample: Some(json!({"waiting": n, "went_away": gone, "before_publishing": before, "published": m})),
            counts: vec![("messages", m as u64), ("waiting_consumers", n as u64)],
        })
    })
}

/// Thousands of messages wait for their consumers.
fn backlog(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let queue = InMemoryQueueHandle::new(any_ser(&mut rng), options(&mut rng, SyndicationMode::ExactlyOnce));
        let n = *rng.pick(&[256u32, 257, 1000, 1025, 4097, 9000, if seed % 8 == 0 { 70_000 } else { 3000 }]);
        let consumers = rng.range(1, 4) as usize;
        let before = rng.range(0, n as u64) as u32;
        let mut all = vec![];
        let mut cs = vec![];
        for s in 0..n {
            if s == before {
                for c in 0..consumers {
                    cs.push(queue.declare_consumer::<Msg>(&format!("c{c}")).await?);
                }
            }
            queue.publish(&Msg::new(0, s)).await?;
        }
        if cs.is_empty() {
            cs.push(queue.declare_consumer::<Msg>("c").await?);
        }
        let what = format!("{n} messages published before {} consumers receive", cs.len());
        let mut last: Vec<i64> = vec![-1; cs.len()];
        while all.len() < n as usize {
            let k = rng.usize(cs.len());
            for _ in 0..rng.range(1, 400).min(n as u64 - all.len() as u64) {
                let (m, _) = within(&format!("{what}: receiving message {}", all.len()), cs[k].next())
                    .await?
                    .ok_or(Bad::Violation("a consumer's stream ended".into()))?;
                ensure!(m == Msg::new(0, m.seq), "{what}: message {} was altered", m.seq);
                ensure!(last[k] < m.seq as i64, "{what}: message {} came after {}", m.seq, last[k]);
                last[k] = m.seq as i64;
                all.push(m.seq);
            }
        }
        for c in &mut cs {
            let extra = tokio::time::timeout(Duration::from_secs(1), c.next()).await;
            ensure!(extra.is_err(), "{what}: an additional message was delivered");
        }
        // One after the other, the receives follow the order of publication.
        ensure!(all.iter().copied().eq(0..n), "{what}: not received in order, or not exactly once");
        Ok(Seen {
            sig: mix(mix(n as u64, before as u64), cs.len() as u64),
            nontrivial: true,
            sample: Some(json!({"backlog": n, "consumers": cs.len(), "declared_after": before})),
            counts: vec![("messages", n as u64)],
        })
    })
}
