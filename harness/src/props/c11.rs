//! C11: in-memory queue names denote stable, isolated queues.
use std::collections::{HashMap, HashSet, VecDeque};

use futures::{FutureExt, StreamExt};
use paladin::{
    queue::{
        in_memory::{InMemoryConnection, InMemoryQueueHandle},
        Connection, QueueHandle, SyndicationMode,
    },
};
use serde_json::json;

use super::{
    c09::{any_ser, options, Msg},
    common::alike,
};
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "one case is a generated sequence of declarations, deletions, publications and receives over a few names on \
               clones of one connection and on a separate one, compared step by step with a reference map; or a set of \
               concurrent declarations of the same names. Non-trivial if at least two names or handles were used; \
               distinct by the sequence",
        families: vec![
            Family { name: "model", run: model, quick: 4000, thorough: 15, threads: 4, secs: 15, min: 50 },
            Family { name: "concurrent-declare", run: concurrent, quick: 600, thorough: 15, threads: 2, secs: 15, min: 10 },
        ],
        assumptions: vec![],
        allowed_panics: vec![],
    }
}

async fn take(q: &InMemoryQueueHandle, consumer: &str) -> Option<(u32, u32)> {
    let mut c = q.declare_consumer::<Msg>(consumer).await.unwrap();
    for _ in 0..2 {
        if let Some(x) = c.next().now_or_never() {
            return x.map(|x| (x.0.publisher, x.0.seq));
        }
        tokio::task::yield_now().await;
    }
    None
}

struct Q {
    broadcast: bool,
    /// For an exactly-once queue: its contents. For a broadcast one: the
    /// contents of the one subscription that the scenario uses.
    content: VecDeque<u32>,
    subscribed: bool,
    persistent: bool,
}

fn model(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let ser = any_ser(&mut rng);
        let first = InMemoryConnection::new(ser);
        // Clones of the first, and a separate connection.
        let mut conns = vec![(0u8, first.clone()), (0, first), (1, InMemoryConnection::new(ser))];
        let mut names = if rng.chance(50) {
            ["", "a", "b", "abort-all-key", "task-ipc-routing-key"].map(String::from).to_vec()
        } else {
            alike(&mut rng, 4)
        };
        if !names[0].is_empty() && rng.chance(30) {
            names.push(String::new());
        }
        let mut queues: Vec<Q> = vec![];
        let mut current: HashMap<(u8, usize), usize> = HashMap::new();
        let mut handles: Vec<(usize, InMemoryQueueHandle)> = vec![];
        let mut seq = 0;
        let mut trace: Vec<String> = vec![];
        let n_names = rng.range(1, names.len() as u64);
        for _ in 0..rng.range(5, 60) {
            match rng.below(20) {
                0..=4 => {
                    let (g, conn) = rng.pick(&conns).clone();
                    let name = rng.below(n_names) as usize;
                    let mode = if rng.chance(30) { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce };
                    let opts = options(&mut rng, mode);
                    let h = conn.declare_queue(&names[name], opts).await?;
                    let q = *current.entry((g, name)).or_insert_with(|| {
                        queues.push(Q {
                            broadcast: mode == SyndicationMode::Broadcast,
                            content: VecDeque::new(),
                            subscribed: false,
                            persistent: opts.delivery_mode == paladin::queue::DeliveryMode::Persistent,
                        });
                        queues.len() - 1
                    });
                    trace.push(format!("declare {}:{:?} -> queue {q}", g, names[name]));
                    handles.push((q, h));
                }
                5..=6 => {
                    let (g, conn) = rng.pick(&conns).clone();
                    let name = rng.below(n_names) as usize;
                    conn.delete_queue(&names[name]).await?;
                    current.remove(&(g, name));
                    trace.push(format!("delete {}:{:?}", g, names[name]));
                }
                7 => {
                    let (g, conn) = rng.pick(&conns).clone();
                    conns.push((g, conn.clone()));
                    if conns.len() > 8 {
                        let k = rng.usize(2);
                        conns.remove(k);
                    }
                }
                8 => {
                    let (_, conn) = rng.pick(&conns).clone();
                    conn.close().await?;
                    trace.push("close".into());
                }
                9..=13 if !handles.is_empty() => {
                    let (q, h) = rng.pick(&handles).clone();
                    h.publish(&Msg::new(q as u32, seq)).await?;
                    let m = &mut queues[q];
                    if !m.broadcast || m.subscribed || m.persistent {
                        m.content.push_back(seq);
                    }
                    trace.push(format!("publish {seq} to queue {q}"));
                    seq += 1;
                }
                14..=18 if !handles.is_empty() => {
                    let (q, h) = rng.pick(&handles).clone();
                    let got = take(&h, "the-consumer").await;
                    let m = &mut queues[q];
                    m.subscribed = true;
                    let want = m.content.pop_front().map(|s| (q as u32, s));
                    trace.push(format!("receive from queue {q}: {got:?}"));
                    ensure!(got == want, "{trace:?}: expected {want:?} (queue number, message)");
                }
                19 if !handles.is_empty() => {
                    let k = rng.usize(handles.len());
                    handles.swap_remove(k);
                }
                _ => {}
            }
        }
        // Every queue has exactly what the model says.
        for (q, h) in &handles {
            loop {
                let got = take(h, "the-consumer").await;
                let want = queues[*q].content.pop_front().map(|s| (*q as u32, s));
                ensure!(got == want, "{trace:?}: at the end queue {q} gives {got:?} instead of {want:?}");
                if want.is_none() {
                    break;
                }
            }
        }
        Ok(Seen {
            sig: trace.iter().fold(0, |h, s| s.bytes().fold(h, |h, b| mix(h, b as u64))),
            nontrivial: handles.len() > 1,
            sample: Some(json!({"steps": trace.iter().take(15).collect::<Vec<_>>()})),
            counts: vec![("steps", trace.len() as u64), ("queues", queues.len() as u64)],
        })
    })
}

/// Concurrent declarations of a name give the same queue.
fn concurrent(seed: u64, _: &Ctx) -> Res {
    mt(4, async move {
        let mut rng = Rng::new(seed);
        let conn = InMemoryConnection::new(any_ser(&mut rng));
        let k = rng.range(2, 8) as usize;
        let names = rng.range(1, 3) as u32;
        let labels = std::sync::Arc::new(alike(&mut rng, 3));
        let rounds = 20u32;
        let mut received = 0u64;
        for round in 0..rounds {
            let barrier = std::sync::Arc::new(tokio::sync::Barrier::new(k));
            let tasks: Vec<_> = (0..k)
                .map(|t| {
                    let (conn, barrier, labels) = (conn.clone(), barrier.clone(), labels.clone());
                    tokio::spawn(async move {
                        barrier.wait().await;
                        let name = t as u32 % names;
                        let h = conn.declare_queue(&format!("{round}{}", labels[name as usize]), Default::default()).await.unwrap();
                        h.publish(&Msg::new(name, t as u32)).await.unwrap();
                        h
                    })
                })
                .collect();
            let mut handles = vec![];
            for t in tasks {
                handles.push(t.await.map_err(|e| Bad::Inconclusive(e.to_string()))?);
            }
            for name in 0..names {
                // All of the messages, through any one of the handles.
                let mine: Vec<usize> = (0..k).filter(|t| *t as u32 % names == name).collect();
                if mine.is_empty() {
                    continue;
                }
                let mut c = handles[*rng.pick(&mine)].declare_consumer::<Msg>("x").await?;
                let mut got = HashSet::new();
                for _ in &mine {
                    let (m, _) = within("receiving what concurrent declarers of a name published", async {
                        tokio::time::timeout(std::time::Duration::from_secs(60), c.next()).await
                    })
                    .await?
                    .map_err(|_| {
                        Bad::Violation(format!(
                            "{} tasks declared a name concurrently and published to it, and only {} messages arrived",
                            mine.len(),
                            got.len()
                        ))
                    })?
                    .ok_or(Bad::Violation("stream ended".into()))?;
                    ensure!(m.publisher == name, "queue {name} delivered a message of queue {}", m.publisher);
                    ensure!(got.insert(m.seq), "a message was delivered twice");
                    received += 1;
                }
            }
        }
        Ok(Seen {
            sig: mix(seed, k as u64),
            nontrivial: true,
            sample: Some(json!({"declarers": k, "names": names, "rounds": rounds})),
            counts: vec![("concurrent_declarations", k as u64 * rounds as u64), ("receives", received)],
        })
    })
}
