//! C32: closing a connection to the broker is orderly, and affects nothing else.
use std::{
    collections::{HashMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU32, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    directive::Directive,
    queue::{
        amqp::{AMQPConnection, AMQPQueueHandle},
        Connection, Publisher, QueueHandle, SyndicationMode,
    },
    runtime::Runtime,
};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, connect, leader, until, worker},
    c09::{any_ser, options, Msg},
    common::{any_len, check_outputs, check_tally, items, paced_ok, Pace},
};
use crate::{
    broker::{Broker, Ev},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt},
    ledger,
    ops::{expected, Item, Step},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        level: "exploration",
        rule: "connections: one case is 2 to 4 connections with queues, publishers and consumers that keep some of their \
               messages, of which one or two are closed while the others work; what was published \
               and acknowledged before must be so at the broker, what was not must be delivered to others, and the ends of the \
               closed connection must fail or end. runtimes: one case is 2 or 3 leaders and some workers, of which a leader is \
               closed between computations, while the others compute. Distinct by the broker's log",
        families: vec![
            Family { name: "connections", run: connections, quick: 400, thorough: 15, threads: 6, secs: 25, min: 20 },
            Family { name: "runtimes", run: runtimes, quick: 120, thorough: 15, threads: 5, secs: 25, min: 10 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "no computation of a runtime is running when it is closed",
        ],
        allowed_panics: vec![],
    }
}

#[derive(Default)]
struct Taken {
    got: Mutex<Vec<(u32, u32)>>,
    /// Acknowledged before the connection began to be closed.
    acked: Mutex<Vec<(u32, u32)>>,
    ended: AtomicBool,
    /// Messages that may still be acknowledged.
    budget: AtomicU32,
    gate: tokio::sync::RwLock<()>,
    late: AtomicU32,
}

fn connections(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, connections_(seed))
}

async fn connections_(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let b = broker(&mut rng)?;
    let ser = any_ser(&mut rng);
    let n_queues = rng.range(1, 3) as usize;
    let opts: Vec<_> = (0..n_queues).map(|_| options(&mut rng, SyndicationMode::ExactlyOnce)).collect();
    let name = |q: usize| format!("queue-{q}");
    let n = rng.range(2, 4) as usize;
    let mut conns: Vec<(u64, AMQPConnection)> = vec![];
    for _ in 0..n {
        conns.push(connect(&b, *rng.pick(&[None, Some(1), Some(2), Some(7)]), ser).await?);
    }
    let doomed = rng.range(1, (n - 1).min(2) as u64) as usize;
    // The first ones are closed; the last one serves all the queues.
    let mut consumers: Vec<(usize, usize, Arc<Taken>, tokio::task::JoinHandle<()>)> = vec![];
    let mut handles: Vec<Vec<AMQPQueueHandle>> = vec![];
    for (i, (_, c)) in conns.iter().enumerate() {
        let mut hs = vec![];
        for (q, opt) in opts.iter().enumerate() {
            let h = c.declare_queue(&name(q), *opt).await?;
            if i + 1 == n || rng.chance(60) {
                let mut stream = h.declare_consumer::<Msg>(&format!("c{i}-{q}")).await?;
                let taken = Arc::new(Taken::default());
                let budget = if i < doomed { rng.below(6) as u32 } else { u32::MAX };
                taken.budget.store(budget, Ordering::SeqCst);
                let t = taken.clone();
                let task = tokio::spawn(async move {
                    let mut kept = vec![];
                    while let Some((m, acker)) = stream.next().await {
                        let key = (m.publisher, m.seq);
                        t.got.lock().unwrap().push(key);
                        // None is acknowledged while the connection is closed.
                        let gate = t.gate.read().await;
                        if t.budget.load(Ordering::SeqCst) == 0 {
                            kept.push(acker);
                            continue;
                        }
                        if acker.ack().await.is_ok() {
                            t.acked.lock().unwrap().push(key);
                        }
                        if t.budget.load(Ordering::SeqCst) != u32::MAX {
                            t.budget.fetch_sub(1, Ordering::SeqCst);
                        }
                        drop(gate);
                    }
                    for acker in kept {
                        // What was not acknowledged before the close cannot be, nor is it waited for.
                        if acker.ack().await.is_ok() {
                            t.late.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                    t.ended.store(true, Ordering::SeqCst);
                });
                consumers.push((i, q, taken, task));
            }
            hs.push(h);
        }
        handles.push(hs);
    }
    // Publishers; those of the connections to be closed come to an end first.
    let mut sent: Vec<(u32, u32)> = vec![];
    let mut before = vec![];
    let mut along = vec![];
    for p in 0..rng.range(1, 6) as u32 {
        let i = rng.usize(n);
        let q = rng.usize(n_queues);
        let k = if rng.chance(3) { rng.range(30, 300) } else { rng.range(1, 30) } as u32;
        sent.extend((0..k).map(|s| (p, s)));
        let (h, seed) = (handles[i][q].clone(), rng.u64());
        let t = tokio::spawn(async move {
            let publisher = h.publisher::<Msg>();
            for s in 0..k {
                publisher.publish(&Msg::new(p, s)).await?;
                if mix(seed, s as u64) % 5 == 0 {
                    tokio::time::sleep(Duration::from_micros(mix(seed, s as u64 + 9) % 700)).await;
                }
            }
            anyhow::Ok(())
        });
        if i < doomed {
            before.push(t);
        } else {
            along.push(t);
        }
    }
    for t in before {
        until(&b, "publishing", t).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
    }
    // Consumers of these connections acknowledge nothing from now on.
    let mut sure = vec![];
    for (i, _, t, _) in &consumers {
        if *i < doomed {
            let _gate = t.gate.write().await;
            t.budget.store(0, Ordering::SeqCst);
            sure.extend(t.acked.lock().unwrap().clone());
        }
    }
    // Several connections at once, each by one of its clones.
    let closers: Vec<_> = conns[..doomed]
        .iter()
        .map(|(_, c)| {
            let c = c.clone();
            tokio::spawn(async move { c.close().await })
        })
        .collect();
    for t in closers {
        until(&b, "closing a connection", t)
            .await?
            .map_err(|e| Bad::Inconclusive(e.to_string()))?
            .map_err(|e| Bad::Violation(format!("closing a connection fails: {e:#}")))?;
    }
    for (conn, _) in &conns[..doomed] {
        at_broker(&b, "the end of a closed connection", |st| !st.open(*conn)).await?;
    }
    for (i, q, t, _) in &consumers {
        if *i < doomed {
            at_broker(&b, &format!("a consumer of {} of a closed connection", name(*q)), |_| t.ended.load(Ordering::SeqCst)).await?;
        }
    }
    // Its other ends refuse.
    for (i, (_, c)) in conns[..doomed].iter().enumerate() {
        let q = rng.usize(n_queues);
        let h = handles[i][q].clone();
        let r = until(&b, "publishing over a closed connection", h.publish(&Msg::new(999, 0))).await?;
        ensure!(r.is_err(), "a message was published over a closed connection");
        let r = until(&b, "declaring a consumer over a closed connection", h.declare_consumer::<Msg>("late")).await?;
        ensure!(r.is_err(), "a consumer was declared over a closed connection");
        let r = until(&b, "declaring a queue over a closed connection", c.declare_queue("late", opts[0])).await?;
        ensure!(r.is_err(), "a queue was declared over a closed connection");
        let r = until(&b, "deleting a queue over a closed connection", c.delete_queue(&name(q))).await?;
        ensure!(r.is_err(), "a queue was deleted over a closed connection");
        if rng.chance(30) {
            until(&b, "closing a connection again", c.close())
                .await?
                .map_err(|e| Bad::Violation(format!("closing a connection again fails: {e:#}")))?;
        }
    }
    for t in along {
        until(&b, "publishing over another connection", t)
            .await?
            .map_err(|e| Bad::Inconclusive(e.to_string()))?
            .map_err(|e| Bad::Violation(format!("publishing over a connection fails as another is closed: {e:#}")))?;
    }
    let total = sent.len();
    at_broker(&b, "the acknowledgement of all messages", |st| {
        st.log.iter().filter(|e| matches!(e.ev, Ev::Ack { .. })).count() >= total
    })
    .await?;
    let st = b.state();
    let mut bodies: HashMap<u64, (u32, u32)> = HashMap::new();
    let mut acks: HashMap<(u32, u32), u32> = HashMap::new();
    let mut deliveries: HashMap<(u32, u32), u32> = HashMap::new();
    let mut requeued = 0u64;
    for e in &st.log {
        match &e.ev {
            Ev::Publish { msg, .. } => {
                let m: Msg = ser.from_bytes(&st.bodies[msg]).map_err(|_| Bad::Violation("a message was published changed".into()))?;
                bodies.insert(*msg, (m.publisher, m.seq));
            }
            Ev::Deliver { msg, .. } => *deliveries.entry(bodies[msg]).or_default() += 1,
            Ev::Ack { msg, .. } => *acks.entry(bodies[msg]).or_default() += 1,
            Ev::Nack { .. } => return Err("a message was rejected".to_string().into()),
            Ev::Requeue { .. } => requeued += 1,
            Ev::Closed(orderly) => {
                let i = conns.iter().position(|c| c.0 == e.conn);
                ensure!(i.is_some_and(|i| i < doomed), "connection {i:?} was closed instead of the first {doomed}");
                ensure!(*orderly, "a closed connection was dropped instead of being closed at the broker");
            }
            Ev::DeleteQueue { queue, .. } => return Err(format!("queue {queue} was deleted").into()),
            Ev::Error { text, .. } => return Err(format!("the library violated the protocol: {text}").into()),
            _ => {}
        }
    }
    let want: HashSet<(u32, u32)> = sent.iter().copied().collect();
    let published: HashSet<(u32, u32)> = bodies.values().copied().collect();
    ensure!(
        published == want && bodies.len() == sent.len(),
        "{} messages were published, {} of them before the connection was closed, and {} reached the broker",
        sent.len(),
        sent.len(),
        bodies.len()
    );
    for m in &want {
        ensure!(acks.get(m) == Some(&1), "message {m:?} was acknowledged {:?} times", acks.get(m));
    }
    for m in &sure {
        ensure!(deliveries[m] == 1, "message {m:?}, acknowledged before its connection was closed, was delivered again");
    }
    let mut got: HashMap<(u32, u32), u32> = HashMap::new();
    for (i, _, t, _) in &consumers {
        for m in t.got.lock().unwrap().iter() {
            if *i >= doomed {
                *got.entry(*m).or_default() += 1;
            }
        }
        ensure!(*i < doomed || !t.ended.load(Ordering::SeqCst), "a consumer of another connection has ended");
    }
    ensure!(got.values().all(|n| *n == 1), "a message was received twice over open connections");
    let sig = st.log.iter().fold(7, |a, e| format!("{}{:?}", e.conn, e.ev).bytes().fold(a, |a, b| mix(a, b as u64)));
    drop(st);
    for (.., task) in &consumers {
        task.abort();
    }
    Ok(Seen {
        sig,
        nontrivial: requeued > 0 || !sure.is_empty(),
        sample: Some(json!({"connections": n, "closed": doomed, "messages": total, "acknowledged_before": sure.len(), "put_back": requeued})),
        counts: vec![
            ("connections_closed", doomed as u64),
            ("messages", total as u64),
            ("acknowledged_before_the_close", sure.len() as u64),
            ("put_back", requeued),
        ],
    })
}

async fn compute(rt: Arc<Runtime>, seed: u64) -> Result<u64, Bad> {
    let mut rng = Rng::new(seed);
    let run = ledger::new_run(rng.u64(), ledger::random_delay(&mut rng));
    let n = any_len(&mut rng, 30).max(1);
    let xs: Vec<(usize, Item)> = items(&mut rng, run.id, &(0..n).collect::<Vec<_>>(), true).into_iter().enumerate().collect();
    let op = Step(rng.u64());
    let want: HashMap<usize, Item> = xs.iter().map(|(i, x)| (*i, expected(1, op.0, x))).collect();
    let mut out = Directive::map(paced_ok(xs, Pace::Burst, seed, 2), &op).run(&rt).await?;
    let mut got = vec![];
    while let Some(x) = out.next().await {
        got.push(x?);
    }
    check_outputs("a map while another runtime is closed", &got, &want)?;
    check_tally(&run, 0, 0..n as u64)?;
    Ok(n as u64)
}

fn runtimes(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, runtimes_(seed))
}

async fn runtimes_(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let b: Arc<Broker> = broker(&mut rng)?;
    let ser = any_serializer(&mut rng);
    let mut leaders = vec![];
    let mut workers = vec![];
    for _ in 0..rng.range(1, 3) {
        workers.push(worker(&b, ser, None).await?);
    }
    for _ in 0..rng.range(2, 3) {
        let conn = b.connections();
        leaders.push((conn, Arc::new(leader(&b, ser, None).await?)));
    }
    let at_first = b.state().queue_names();
    let mut tasks = 0;
    // The first one has worked, or not.
    for _ in 0..rng.below(3) {
        tasks += until(&b, "a computation", compute(leaders[0].1.clone(), rng.u64())).await??;
    }
    let others: Vec<_> = leaders[1..]
        .iter()
        .map(|(_, rt)| {
            let (rt, seed, n) = (rt.clone(), rng.u64(), rng.range(1, 3));
            tokio::spawn(async move {
                let mut tasks = 0;
                for i in 0..n {
                    tasks += compute(rt.clone(), mix(seed, i)).await?;
                }
                Ok::<u64, Bad>(tasks)
            })
        })
        .collect();
    if rng.chance(50) {
        tokio::time::sleep(Duration::from_micros(rng.below(4000))).await;
    }
    let at_once = rng.range(1, 2);
    // What a computation leaves behind is deleted in the background.
    let conn = leaders[0].0;
    at_broker(&b, "the deletion of what a computation left behind", |st| {
        st.log.iter().all(|e| match &e.ev {
            Ev::DeclareQueue { queue, .. } if e.conn == conn => at_first.contains(queue) || !st.has_queue(queue),
            _ => true,
        })
    })
    .await?;
    tokio::time::sleep(Duration::from_millis(20)).await;
    until(&b, "closing a runtime", leaders[0].1.close())
        .await?
        .map_err(|e| Bad::Violation(format!("closing a runtime fails: {e:#}")))?;
    if rng.chance(30) {
        until(&b, "closing a runtime again", leaders[0].1.close())
            .await?
            .map_err(|e| Bad::Violation(format!("closing a runtime again fails: {e:#}")))?;
    }
    at_broker(&b, "the end of the connection of a closed runtime", |st| !st.open(conn)).await?;
    // A computation on it fails.
    for _ in 0..rng.range(1, 2) {
        let rt = leaders[0].1.clone();
        let run = ledger::new_run(rng.u64(), ledger::Delay::None);
        let n = any_len(&mut rng, 10).max(1);
        let xs: Vec<(usize, Item)> = items(&mut rng, run.id, &(0..n).collect::<Vec<_>>(), true).into_iter().enumerate().collect();
        let r = until(&b, "a computation on a closed runtime", async {
            let op = Step(1);
            let mut out = match Directive::map(paced_ok(xs, Pace::Burst, 1, 2), &op).run(&rt).await {
                Ok(out) => out,
                Err(_) => return true,
            };
            let mut failed = false;
            while let Some(x) = out.next().await {
                failed |= x.is_err();
            }
            failed
        })
        .await?;
        ensure!(r, "a computation on a closed runtime reports no error");
        ensure!(run.count() == 0, "a task of a closed runtime was executed");
    }
    for t in others {
        tasks += until(&b, "a computation of another runtime", t).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
    }
    for (_, rt) in &leaders[1..] {
        tasks += until(&b, "a later computation of another runtime", compute(rt.clone(), rng.u64())).await??;
    }
    let st = b.state();
    let mut late = false;
    for e in &st.log {
        match &e.ev {
            Ev::Closed(orderly) => {
                ensure!(e.conn == conn, "connection {} was closed instead of {conn}", e.conn);
                ensure!(*orderly || late, "the connection of a closed runtime was dropped instead of being closed at the broker");
            }
            // Of the deletion in the background.
            Ev::Error { text, .. } if e.conn == conn && text.contains("not open") => late = true,
            Ev::Error { text, .. } => return Err(format!("the library violated the protocol: {text}").into()),
            _ => {}
        }
    }
    ensure!(workers.iter().all(|w| !w.ended.load(Ordering::SeqCst)), "a worker has ended as a leader was closed");
    let sig = st.log.iter().fold(7, |a, e| format!("{}{:?}", e.conn, e.ev).bytes().fold(a, |a, b| mix(a, b as u64)));
    drop(st);
    Ok(Seen {
        sig,
        nontrivial: tasks > 0,
        sample: Some(json!({"leaders": leaders.len(), "workers": workers.len(), "tasks": tasks})),
        counts: vec![("runtimes_closed", 1), ("tasks", tasks)],
    })
}
