//! C10: in-memory broadcast queues deliver each message once to every
//! consumer.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};

use futures::{FutureExt, StreamExt};
use paladin::{
    acker::Acker,
    queue::{
        in_memory::{InMemoryConnection, InMemoryConsumer},
        Connection, DeliveryMode, Publisher, QueueHandle, SyndicationMode,
    },
};
use serde_json::json;

use super::{
    c09::{any_ser, options, stamp, Msg},
    common::alike,
};
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "one case is a history of concurrent publishers (1 to 5) and consumer declarations (1 to 6, some sharing a \
               name) on one broadcast queue, persistent or ephemeral, with early messages published before there is any \
               consumer; every consumer's receives are checked against the stamps of declarations and publications. \
               Non-trivial if there are at least two consumers or early messages; distinct by the history",
        families: vec![
            Family { name: "real-time", run: real, quick: 900, thorough: 15, threads: 2, secs: 25, min: 10 },
            Family { name: "sequential", run: sequential, quick: 1500, thorough: 15, threads: 4, secs: 10, min: 10 },
        ],
        assumptions: vec![],
        allowed_panics: vec![],
    }
}

/// Everything that is available to the consumer now.
async fn drain(c: &mut InMemoryConsumer<Msg>) -> Vec<Msg> {
    let mut v = vec![];
    let mut pending = 0;
    // The executor's budget may make a receive pending although something is
    // available.
    while pending < 3 {
        match c.next().now_or_never() {
            Some(Some((m, acker))) => {
                _ = acker.ack().now_or_never();
                v.push(m);
                pending = 0;
            }
            Some(None) => break,
            None => {
                pending += 1;
                tokio::task::yield_now().await;
            }
        }
    }
    v
}

type Key = (u32, u32);

fn check_consumer(
    what: &str,
    declared: u64,
    got: &[Msg],
    published: &HashMap<Key, (u64, u64)>,
    must: impl Fn(&Key) -> bool,
) -> Result<(), Bad> {
    let mut seen = std::collections::HashSet::new();
    let mut last: HashMap<u32, u32> = HashMap::new();
    for m in got {
        let k = (m.publisher, m.seq);
        ensure!(*m == Msg::new(k.0, k.1), "{what}: message {k:?} was altered");
        ensure!(published.contains_key(&k), "{what}: message {k:?} was never published");
        ensure!(seen.insert(k), "{what}: message {k:?} was delivered twice to a consumer");
        if let Some(prev) = last.insert(k.0, k.1) {
            ensure!(prev < k.1, "{what}: message {k:?} was delivered after message {prev} of the same publisher");
        }
    }
    for k in published.keys() {
        ensure!(
            !must(k) || seen.contains(k),
            "{what}: message {k:?} (published {:?}) was not delivered to the consumer declared at {declared}",
            published[k]
        );
    }
    Ok(())
}

fn real(seed: u64, _: &Ctx) -> Res {
    mt(2 + (seed % 5) as usize, async move {
        let mut rng = Rng::new(seed);
        let conn = InMemoryConnection::new(any_ser(&mut rng));
        let opts = options(&mut rng, SyndicationMode::Broadcast);
        let persistent = opts.delivery_mode == DeliveryMode::Persistent;
        let queue = conn.declare_queue("b", opts).await?;
        let early = match rng.below(25) {
            0 => *rng.pick(&[100, 129, 256, 257, 1025, 3000]),
            _ => rng.below(6) as u32,
        };
        let mut published: HashMap<Key, (u64, u64)> = HashMap::new();
        for s in 0..early {
            let t0 = stamp();
            queue.publish(&Msg::new(99, s)).await?;
            published.insert((99, s), (t0, stamp()));
        }
        let publishers = rng.range(1, 5) as u32;
        let per = *rng.pick(&[1u32, 4, 25, 60]);
        let consumers = rng.range(1, 6) as usize;
        let names = rng.range(1, 2 * consumers as u64);
        let labels = Arc::new(alike(&mut rng, names as usize));
        let barrier = Arc::new(tokio::sync::Barrier::new(publishers as usize + consumers));
        let at_once = rng.chance(50);
        let ptasks: Vec<_> = (0..publishers)
            .map(|p| {
                let publisher = queue.publisher::<Msg>();
                let (mut rng, barrier) = (rng.fork(), barrier.clone());
                tokio::spawn(async move {
                    barrier.wait().await;
                    let mut log = vec![];
                    for s in 0..per {
                        let m = Msg::new(p, s);
                        let t0 = stamp();
                        publisher.publish(&m).await.map_err(|e| e.to_string())?;
                        log.push(((p, s), (t0, stamp())));
                        if rng.chance(30) {
                            tokio::task::yield_now().await;
                        }
                    }
                    Ok::<_, String>(log)
                })
            })
            .collect();
        // (name, declaration start and end, received, consumer)
        let ctasks: Vec<_> = (0..consumers)
            .map(|_| {
                let (queue, labels) = (queue.clone(), labels.clone());
                let (mut rng, barrier) = (rng.fork(), barrier.clone());
                tokio::spawn(async move {
                    let name = rng.below(names);
                    barrier.wait().await;
                    if !at_once {
                        for _ in 0..rng.below(30) {
                            tokio::task::yield_now().await;
                        }
                    }
                    let d0 = stamp();
                    let mut c = queue.declare_consumer::<Msg>(&labels[name as usize]).await.map_err(|e| e.to_string())?;
                    let d1 = stamp();
                    let mut got = vec![];
                    for _ in 0..rng.below(20) {
                        got.extend(drain(&mut c).await);
                    }
                    Ok::<_, String>((name, d0, d1, got, c))
                })
            })
            .collect();
        for t in ptasks {
            let log = t.await.map_err(|e| Bad::Inconclusive(e.to_string()))?.map_err(Bad::Violation)?;
            published.extend(log);
        }
        let mut cs = vec![];
        for t in ctasks {
            cs.push(t.await.map_err(|e| Bad::Inconclusive(e.to_string()))?.map_err(Bad::Violation)?);
        }
        for c in &mut cs {
            let rest = drain(&mut c.4).await;
            c.3.extend(rest);
        }
        let what = format!(
            "broadcast ({}) with {early} early messages, {publishers} publishers of {per} and {consumers} consumers",
            if persistent { "persistent" } else { "ephemeral" }
        );
        // Consumers of the same name share one subscription.
        let mut subs: HashMap<u64, (u64, Vec<Msg>)> = HashMap::new();
        for (name, _, d1, got, _) in &cs {
            let e = subs.entry(*name).or_insert((*d1, vec![]));
            e.0 = e.0.min(*d1);
            let single = cs.iter().filter(|c| c.0 == *name).count() == 1;
            if single {
                check_consumer(&what, *d1, got, &published, |_| false)?;
            }
            e.1.extend(got.clone());
        }
        for (d1, got) in subs.values_mut() {
            if cs.iter().filter(|c| c.2 == *d1).count() < cs.len() {
                // Order is checked per consumer where the name is not shared.
                got.sort_by_key(|m| (m.publisher, m.seq));
            }
            check_consumer(&what, *d1, got, &published, |k| published[k].0 > *d1)?;
        }
        // Messages published before there was any consumer go to the first ones.
        if persistent {
            let mut holders: HashMap<Key, u32> = HashMap::new();
            for (_, got) in subs.values() {
                for m in got {
                    *holders.entry((m.publisher, m.seq)).or_default() += 1;
                }
            }
            let first_d0 = cs.iter().map(|c| c.1).min().unwrap_or(u64::MAX);
            for (k, (_, t1)) in &published {
                ensure!(
                    *t1 > first_d0 || holders.get(k).copied().unwrap_or(0) >= 1,
                    "{what}: message {k:?}, published before the first consumer was declared, was delivered to none"
                );
                // Whatever the race, a persistent message is not lost to everyone.
                ensure!(
                    holders.get(k).copied().unwrap_or(0) >= 1,
                    "{what}: message {k:?} was delivered to no consumer"
                );
            }
        }
        let sig = cs.iter().fold(early as u64, |h, c| {
            c.3.iter().fold(mix(h, c.0), |h, m| mix(h, mix(m.publisher as u64, m.seq as u64)))
        });
        Ok(Seen {
            sig,
            nontrivial: consumers > 1 || early > 0,
            sample: Some(json!({
                "persistent": persistent, "early": early, "publishers": publishers, "messages_each": per,
                "consumers": consumers, "subscriptions": subs.len(), "received": cs.iter().map(|c| c.3.len()).collect::<Vec<_>>(),
            })),
            counts: vec![
                ("messages", published.len() as u64),
                ("receives", cs.iter().map(|c| c.3.len() as u64).sum()),
            ],
        })
    })
}

/// Steps one after another: exact expectations.
fn sequential(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let conn = InMemoryConnection::new(any_ser(&mut rng));
        let opts = options(&mut rng, SyndicationMode::Broadcast);
        let persistent = opts.delivery_mode == DeliveryMode::Persistent;
        let queue = conn.declare_queue("b", opts).await?;
        let labels = alike(&mut rng, 4);
        // Model: per name, what is queued; and the history kept for the first consumer.
        let mut subs: Vec<(String, Vec<u32>)> = vec![];
        let mut kept: Vec<u32> = vec![];
        let mut consumers: Vec<(usize, InMemoryConsumer<Msg>)> = vec![];
        let mut seq = 0;
        let steps = rng.range(3, 40);
        let mut trace = vec![];
        for _ in 0..steps {
            match rng.below(10) {
                0..=4 => {
                    let n = if rng.chance(2) { rng.range(100, 1500) } else { 1 };
                    for _ in 0..n {
                        queue.publish(&Msg::new(0, seq)).await?;
                        if subs.is_empty() && persistent {
                            kept.push(seq);
                        }
                        for s in &mut subs {
                            s.1.push(seq);
                        }
                        seq += 1;
                    }
                    trace.push(if n == 1 { "publish".to_string() } else { format!("publish {n}") });
                }
                5..=6 => {
                    let name = rng.pick(&labels).clone();
                    let c = queue.declare_consumer::<Msg>(&name).await?;
                    let i = match subs.iter().position(|s| s.0 == name) {
                        Some(i) => i,
                        None => {
                            subs.push((name.clone(), std::mem::take(&mut kept)));
                            subs.len() - 1
                        }
                    };
                    consumers.push((i, c));
                    trace.push(format!("declare {name}"));
                }
                7..=8 if !consumers.is_empty() => {
                    let k = rng.usize(consumers.len());
                    let alone = consumers.iter().filter(|c| c.0 == consumers[k].0).count() == 1;
                    let (i, c) = &mut consumers[k];
                    let all = rng.chance(50);
                    let got: Vec<u32> = if all {
                        drain(c).await.iter().map(|m| m.seq).collect()
                    } else {
                        c.next().now_or_never().flatten().map(|x| x.0.seq).into_iter().collect()
                    };
                    let q = &mut subs[*i].1;
                    let want: Vec<u32> = q.drain(..got.len().min(q.len())).collect();
                    trace.push(format!("receive {got:?} as {}", subs[*i].0));
                    ensure!(got == want, "{trace:?}: expected {want:?}");
                    // Messages may be set aside for another waiting consumer of the same name.
                    let q = &subs[*i].1;
                    ensure!(!alone || !all || q.is_empty(), "{trace:?}: {q:?} is missing");
                }
                9 if !consumers.is_empty() => {
                    let k = rng.usize(consumers.len());
                    consumers.swap_remove(k);
                    trace.push("drop a consumer".to_string());
                }
                _ => {}
            }
        }
        // No one is left waiting: everything must be available to a new consumer.
        drop(consumers);
        for i in 0..subs.len() {
            let mut c = queue.declare_consumer::<Msg>(&subs[i].0).await?;
            let got: Vec<u32> = drain(&mut c).await.iter().map(|m| m.seq).collect();
            ensure!(
                got == subs[i].1,
                "{trace:?}: at the end, consumer {} gets {got:?} instead of {:?}",
                subs[i].0,
                subs[i].1
            );
        }
        let mut c = queue.declare_consumer::<Msg>("last").await?;
        let got: Vec<u32> = drain(&mut c).await.iter().map(|m| m.seq).collect();
        ensure!(got == kept, "{trace:?}: a new consumer gets {got:?} instead of {kept:?}");
        Ok(Seen {
            sig: trace.iter().fold(persistent as u64, |h, s| s.bytes().fold(h, |h, b| mix(h, b as u64))),
            nontrivial: subs.len() > 1,
            sample: Some(json!({"persistent": persistent, "steps": trace.iter().take(15).collect::<Vec<_>>()})),
            counts: vec![("messages", seq as u64)],
        })
    })
}
