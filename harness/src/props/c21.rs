//! C21: result channels are unique per lease and released when done.
use std::{
    collections::{HashMap, HashSet},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
    time::Duration,
};

use futures::{Stream, StreamExt};
use paladin::{
    acker::NoopAcker,
    channel::{queue::QueueChannelFactory, Channel, ChannelFactory, ChannelType, LeaseGuard},
    directive::{Directive, IndexedStream, Literal},
    queue::{Connection, Publisher, QueueHandle, QueueOptions},
    runtime::Runtime,
    serializer::Serializable,
    task::Task,
};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, leader, until, worker},
    common::*,
};
use crate::{
    broker::Ev,
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, runtime, vt, within},
    heap,
    ops::{expected, Aff, Affine, Item, Step, Step2},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "leases: one case issues 1 to 40 channels on a recording connection, takes ends of them, leases some and drops \
               guards, ends and channels in generated orders: the deletions must be exactly those of the dropped leases, in \
               time; identifiers: one case leases 400 channels of a runtime at once and one after another; residue: one case \
               runs 100s of computations (of a generated mix) and compares the heap and the executor's tasks before and after; \
               amqp: one case runs computations over a fake broker, at which each result queue must be deleted exactly once. \
               Distinct by the history",
        families: vec![
            Family { name: "leases", run: leases_virt, quick: 6000, thorough: 20, threads: 6, secs: 20, min: 50 },
            Family { name: "leases-real", run: leases_real, quick: 400, thorough: 20, threads: 3, secs: 20, min: 10 },
            Family { name: "identifiers", run: identifiers, quick: 12, thorough: 20, threads: 4, secs: 20, min: 3 },
            Family { name: "amqp", run: amqp, quick: 120, thorough: 20, threads: 5, secs: 25, min: 10 },
            // The heap is that of the process: one at a time.
            Family { name: "residue", run: residue, quick: 12, thorough: 10, threads: 1, secs: 40, min: 3 },
        ],
        assumptions: vec![
            "results that arrive after their channel was released are not looked at",
            "one coincidence of random identifiers among 400 is tolerated",
        ],
        allowed_panics: vec![],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Event {
    Declare(String),
    Delete(String),
    Drop(String),
}

type Log = Arc<Mutex<Vec<Event>>>;

#[derive(Clone)]
struct Conn(Log, Pace, u64);
#[derive(Clone)]
struct Handle;
struct Nobody;
struct Never<T>(std::marker::PhantomData<fn() -> T>, u8);

#[async_trait::async_trait]
impl<T: Serializable> Publisher<T> for Nobody {
    async fn publish(&self, _: &T) -> anyhow::Result<()> {
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

impl<T> Stream for Never<T> {
    type Item = (T, NoopAcker);
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.1 == 0 {
            return Poll::Pending;
        }
        self.1 = 0;
        Poll::Ready(None)
    }
}

#[async_trait::async_trait]
impl QueueHandle for Handle {
    type Acker = NoopAcker;
    type Consumer<T: Serializable> = Never<T>;
    type Publisher<T: Serializable> = Nobody;
    fn publisher<T: Serializable>(&self) -> Nobody {
        Nobody
    }
    async fn declare_consumer<T: Serializable>(&self, name: &str) -> anyhow::Result<Never<T>> {
        Ok(Never(Default::default(), name.len() as u8 % 2))
    }
}

#[async_trait::async_trait]
impl Connection for Conn {
    type QueueHandle = Handle;
    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
    async fn declare_queue(&self, name: &str, _: QueueOptions) -> anyhow::Result<Handle> {
        pause(self.1, mix(self.2, name.len() as u64), 3).await;
        self.0.lock().unwrap().push(Event::Declare(name.into()));
        Ok(Handle)
    }
    async fn delete_queue(&self, name: &str) -> anyhow::Result<()> {
        self.0.lock().unwrap().push(Event::Delete(name.into()));
        Ok(())
    }
}

fn leases_virt(seed: u64, _: &Ctx) -> Res {
    vt(leases(seed))
}
fn leases_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, leases(seed))
}

async fn leases(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let log: Log = Default::default();
    let factory = QueueChannelFactory::new(Conn(log.clone(), any_pace(&mut rng), seed));
    let n = rng.range(1, 40);
    let mut ids = vec![];
    // What is still held: leases, and things whose drop must not delete.
    let mut guards: Vec<(String, Box<dyn std::any::Any + Send>)> = vec![];
    let mut others: Vec<Box<dyn std::any::Any + Send>> = vec![];
    let mut dropped: Vec<String> = vec![];
    macro_rules! lapse {
        ($g:expr) => {{
            let (id, g): (String, Box<dyn std::any::Any + Send>) = $g;
            log.lock().unwrap().push(Event::Drop(id.clone()));
            dropped.push(id);
            if rng.chance(30) {
                // On another task.
                tokio::spawn(async move { drop(g) }).await.map_err(|e| Bad::Inconclusive(e.to_string()))?;
            } else {
                drop(g);
            }
        }};
    }
    for _ in 0..n {
        let ty = if rng.chance(80) { ChannelType::ExactlyOnce } else { ChannelType::Broadcast };
        let (id, channel) = factory.issue(ty).await?;
        ids.push(id.clone());
        if rng.chance(40) {
            others.push(Box::new(channel.sender::<u64>().await?));
        }
        if rng.chance(30) {
            others.push(Box::new(factory.get(id.clone(), ty).await?));
        }
        if rng.chance(30) {
            others.push(Box::new(channel.clone()));
        }
        match rng.below(5) {
            0 => others.push(Box::new(channel.receiver::<u64>().await?)),
            1 => {
                let s = channel.sender::<u64>().await?;
                guards.push((id, Box::new(LeaseGuard::new(channel, s))));
            }
            _ => {
                let r = channel.receiver::<u64>().await?;
                let mut g = LeaseGuard::new(channel, r);
                // Some of the pipes end; that alone releases nothing.
                if rng.chance(50) {
                    _ = futures::poll!(g.next());
                }
                guards.push((id, Box::new(g)));
            }
        }
        if rng.chance(30) && !guards.is_empty() {
            let g = guards.swap_remove(rng.usize(guards.len()));
            lapse!(g);
        }
        if rng.chance(20) && !others.is_empty() {
            others.swap_remove(rng.usize(others.len()));
        }
    }
    // Only dropped leases have been deleted.
    let keep = rng.usize(guards.len() + 1);
    while guards.len() > keep {
        let g = guards.swap_remove(rng.usize(guards.len()));
        lapse!(g);
    }
    others.clear();
    let deleted = |log: &Log| -> Vec<String> {
        log.lock()
            .unwrap()
            .iter()
            .filter_map(|e| if let Event::Delete(x) = e { Some(x.clone()) } else { None })
            .collect()
    };
    within("the deletion of the queues of dropped leases", async {
        while deleted(&log).len() < dropped.len() {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    })
    .await?;
    for _ in 0..10 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(2)).await;
    let events = log.lock().unwrap().clone();
    let mut lapsed: HashMap<String, i64> = HashMap::new();
    for e in &events {
        match e {
            Event::Drop(x) => *lapsed.entry(x.clone()).or_default() += 1,
            Event::Delete(x) => {
                let k = lapsed.entry(x.clone()).or_default();
                ensure!(*k > 0, "queue {x} was deleted {}", if dropped.contains(x) { "before its lease was dropped, or twice" } else { "although its lease was not dropped" });
                *k -= 1;
            }
            Event::Declare(x) => ensure!(ids.contains(x), "queue {x} was declared, which was not issued"),
        }
    }
    for (x, k) in &lapsed {
        ensure!(*k == 0, "queue {x} was not deleted after its lease was dropped");
    }
    let kept: HashSet<&String> = guards.iter().map(|g| &g.0).collect();
    ensure!(kept.len() == guards.len(), "identifiers repeat: {:?}", ids);
    Ok(Seen {
        sig: mix(seed, events.len() as u64),
        nontrivial: !dropped.is_empty(),
        sample: Some(json!({"issued": n, "leases_dropped": dropped.len(), "leases_kept": kept.len()})),
        counts: vec![("leases_dropped", dropped.len() as u64), ("leases_kept", kept.len() as u64)],
    })
}

fn identifiers(seed: u64, _: &Ctx) -> Res {
    mt(3, async move {
        let mut rng = Rng::new(seed);
        let rt = Arc::new(runtime(1, any_serializer(&mut rng)).await?);
        let mut ids = vec![];
        let lease = |rt: Arc<Runtime>| async move {
            let (id, s, r) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
            Ok::<_, Bad>((id, Some((s, r))))
        };
        let mut held = vec![];
        for k in 0..200 {
            let (id, c) = lease(rt.clone()).await?;
            ids.push(id);
            if k % 2 == 0 {
                held.push(c);
            }
        }
        let hs: Vec<_> = (0..200).map(|_| tokio::spawn(lease(rt.clone()))).collect();
        for h in hs {
            let (id, c) = h.await.map_err(|e| Bad::Inconclusive(e.to_string()))??;
            ids.push(id);
            held.push(c);
        }
        let distinct: HashSet<&String> = ids.iter().collect();
        ensure!(
            distinct.len() + 1 >= ids.len(),
            "{} leases have only {} different identifiers, e.g. {:?}",
            ids.len(),
            distinct.len(),
            &ids[..3]
        );
        // Each channel gets the results of its own tasks.
        let mut hs = vec![];
        for (i, c) in held.into_iter().enumerate().take(60) {
            let Some((sender, mut receiver)) = c else { continue };
            let id = ids[if i < 100 { 2 * i } else { i + 100 }].clone();
            hs.push(tokio::spawn(async move {
                let op: &'static Step = Box::leak(Box::new(Step(i as u64)));
                let item = Item { idx: i as u64, ..Default::default() };
                let want = expected(1, i as u64, &item);
                sender.publish(&Task { routing_key: id, metadata: i as u64, op, input: item }).await?;
                sender.close().await?;
                let mut got = vec![];
                while let Some((r, acker)) = receiver.next().await {
                    paladin::acker::Acker::ack(&acker).await?;
                    let r = r?;
                    got.push((r.metadata, r.output));
                }
                ensure!(got == vec![(i as u64, want)], "lease {i} received {} results, of {:?}", got.len(), got.iter().map(|x| x.0).collect::<Vec<_>>());
                Ok::<(), Bad>(())
            }));
        }
        let n = hs.len() as u64;
        for h in hs {
            within("a leased channel", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
        Ok(Seen {
            sig: seed,
            nontrivial: true,
            sample: Some(json!({"leases": ids.len(), "distinct": distinct.len(), "first": &ids[..3]})),
            counts: vec![("leases", ids.len() as u64), ("channels_used", n)],
        })
    })
}

/// A computation that completes, of the given kind.
async fn complete(rt: &Runtime, kind: u64, n: usize) -> Result<(), Bad> {
    // (Run 0 is not logged.)
    let xs = || -> Vec<(usize, Item)> { (0..n).map(|i| (i, Item { idx: i as u64, ..Default::default() })).collect() };
    let (a, b) = (Step(1), Step2(2));
    match kind {
        0 | 1 => {
            let s = paced_ok(xs(), Pace::Yields, n as u64, 1);
            let mut out = if kind == 0 {
                Directive::map(s, &a).run(rt).await?
            } else {
                Directive::map(Directive::map(s, &a), &b).run(rt).await?
            };
            let mut k = 0;
            while let Some(x) = out.next().await {
                x?;
                k += 1;
            }
            ensure!(k == n, "a map gave {k} of {n} outputs");
        }
        2 => {
            let s = paced_ok((0..n).map(|i| (i, Aff(i as u64, 1))).collect(), Pace::Burst, 0, 1);
            Directive::fold(s, &Affine).run(rt).await?;
        }
        3 => {
            Directive::map(Literal(Item::default()), &a).run(rt).await?;
        }
        4 => {
            // Ends in an error of the input, with nothing dispatched.
            let s: IndexedStream<'static, Item> =
                IndexedStream::new(futures::stream::iter(vec![Err(anyhow::anyhow!("pv-input"))]));
            let r = match Directive::map(s, &a).run(rt).await {
                Ok(mut out) => out.next().await,
                Err(e) => Some(Err(e)),
            };
            ensure!(matches!(r, Some(Err(_))), "an input error was lost");
        }
        5 => {
            // Abandoned, before anything was dispatched.
            let s = IndexedStream::new(futures::stream::pending());
            let f = Directive::fold(s, &Affine).run(rt);
            _ = tokio::time::timeout(Duration::from_millis(1), f).await;
        }
        _ => {
            // Dropped with results that were not consumed.
            let (id, sender, mut receiver) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
            for i in 0..n as u64 {
                sender
                    .publish(&Task { routing_key: id.clone(), metadata: i, op: &a, input: Item::default() })
                    .await?;
            }
            for _ in 0..n.min(1) {
                _ = receiver.next().await;
            }
            settle().await;
        }
    }
    Ok(())
}

async fn settle() {
    for _ in 0..3 {
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_micros(200))).await;
    }
    tokio::time::sleep(Duration::from_millis(50)).await;
}

fn residue(seed: u64, ctx: &Ctx) -> Res {
    let which = ctx.index % 6;
    vt(async move {
        let mut rng = Rng::new(seed);
        let workers = rng.range(1, 4) as usize;
        let rt = runtime(workers, any_serializer(&mut rng)).await?;
        let n = rng.range(1, 6) as usize;
        let kinds: Vec<u64> = match which {
            0 => vec![0],
            1 => vec![1, 3],
            2 => vec![2],
            3 => vec![4, 5],
            4 => vec![6],
            _ => vec![0, 1, 2, 3, 4, 5, 6],
        };
        let metrics = tokio::runtime::Handle::current().metrics();
        let reps = 150usize;
        let mut marks = vec![];
        let mut order = Rng::new(seed);
        for round in 0..3 {
            for k in 0..reps {
                let kind = if round == 0 { kinds[k % kinds.len()] } else { *order.pick(&kinds) };
                within("a computation", complete(&rt, kind, n)).await??;
            }
            settle().await;
            marks.push((heap::live_bytes(), metrics.num_alive_tasks()));
        }
        let what = format!("{reps} computations of kinds {kinds:?} (each of {n} elements)");
        // The first round warms everything up.
        let tasks = marks[2].1 as i64 - marks[1].1 as i64;
        ensure!(tasks <= 2, "{what} leave {tasks} background tasks behind");
        let grown = (marks[2].0 - marks[1].0).min(marks[1].0 - marks[0].0);
        ensure!(
            grown < 60 * reps as i64,
            "{what} leave {grown} bytes behind, {} each",
            grown / reps as i64
        );
        Ok(Seen {
            sig: mix(seed, which),
            nontrivial: true,
            sample: Some(json!({"workers": workers, "computations": 3 * reps, "kinds": kinds, "bytes_left": grown, "tasks_left": tasks})),
            counts: vec![("computations", 3 * reps as u64)],
        })
    })
}

/// Over a broker: the queues themselves.
fn amqp(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let conn = b.connections();
        let rt = Arc::new(leader(&b, kind, None).await?);
        let mut ws = vec![];
        for _ in 0..rng.range(1, 3) {
            ws.push(worker(&b, kind, None).await?);
        }
        let before: HashSet<String> = b.state().queue_names().into_iter().collect();
        // Leases that are held all the time.
        let mut held = vec![];
        for _ in 0..rng.below(3) {
            held.push(rt.lease_coordinated_task_channel::<Step, u64>().await?);
        }
        let (rounds, n) = (rng.range(1, 8), rng.range(0, 6) as usize);
        let mut tasks = vec![];
        for _ in 0..rounds {
            let kind = rng.below(7);
            let (rt, b2) = (rt.clone(), b.clone());
            let job = async move {
                if kind == 5 {
                    // Abandoned, once it has begun. (Giving up on a lease that is
                    // being made is another matter.)
                    let (a, k) = (Step(4), n.max(1));
                    let xs = (0..k).map(|i| Ok((i, Item { idx: i as u64, ..Default::default() })));
                    let s = IndexedStream::new(futures::stream::iter(xs).chain(futures::stream::pending()));
                    let mut out = Directive::map(s, &a).run(&rt).await?;
                    for _ in 0..k {
                        out.next().await.ok_or("a map of an unfinished input ended".to_string())??;
                    }
                    drop(out);
                    return Ok(());
                }
                if kind < 5 {
                    return complete(&rt, kind, n).await;
                }
                // Dropped with results that were not consumed.
                let op = Step(1);
                let (id, sender, mut receiver) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
                for i in 0..n as u64 {
                    sender
                        .publish(&Task { routing_key: id.clone(), metadata: i, op: &op, input: Item::default() })
                        .await?;
                }
                if n > 0 {
                    _ = receiver.next().await;
                }
                at_broker(&b2, "results", |st| {
                    st.log.iter().filter(|e| matches!(&e.ev, Ev::Publish { key, .. } if *key == id)).count() >= n
                })
                .await?;
                ensure!(
                    !b2.state().log.iter().any(|e| matches!(&e.ev, Ev::DeleteQueue { queue, .. } if *queue == id)),
                    "the result queue was deleted before the lease was dropped"
                );
                Ok(())
            };
            if rng.chance(40) {
                tasks.push(tokio::spawn(job));
            } else {
                until(&b, "a computation", job).await??;
            }
        }
        for t in tasks {
            until(&b, "a computation", t).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
        // What is left is what was there, and what is held.
        let keep: HashSet<String> = before.iter().cloned().chain(held.iter().map(|h| h.0.clone())).collect();
        let task_queue = paladin::runtime::TASK_IPC_ROUTING_KEY;
        at_broker(&b, "deleting the result queues of computations that are over", |st| {
            st.queue_names().iter().all(|q| keep.contains(q) || q == task_queue)
        })
        .await?;
        let kept = held.len();
        {
            let st = b.state();
            let names = st.queue_names();
            for (id, ..) in &held {
                ensure!(names.contains(id), "the result queue {id} of a lease that is held was deleted");
            }
        }
        let late = held.iter().map(|h| h.0.clone()).collect::<Vec<_>>();
        drop(held);
        at_broker(&b, "deleting the result queues of leases that were held", |st| {
            st.queue_names().iter().all(|q| !late.contains(q))
        })
        .await?;
        tokio::time::sleep(Duration::from_millis(5)).await;
        let st = b.state();
        let mut created = 0u64;
        let mut deleted: HashMap<String, u32> = HashMap::new();
        let mut leased: HashSet<String> = HashSet::new();
        for e in &st.log {
            match &e.ev {
                Ev::DeclareQueue { queue, created: true, .. } if !before.contains(queue) && queue != task_queue => {
                    ensure!(e.conn == conn, "the result queue {queue} was created by a worker");
                    ensure!(leased.insert(queue.clone()), "the result queue {queue} was created twice");
                    created += 1;
                }
                Ev::DeleteQueue { queue, existed, .. } => {
                    ensure!(leased.contains(queue), "the queue {queue} was deleted, which is not a result queue");
                    ensure!(*existed && deleted.insert(queue.clone(), 1).is_none(), "the result queue {queue} was deleted twice");
                }
                Ev::Error { text, .. } => return Err(format!("the library violated the protocol: {text}").into()),
                _ => {}
            }
        }
        ensure!(deleted.len() as u64 == created, "{created} result queues were created and {} deleted", deleted.len());
        Ok(Seen {
            sig: st.log.iter().fold(rounds, |h, e| match &e.ev {
                Ev::Deliver { msg, .. } => mix(h, mix(e.conn, *msg)),
                Ev::DeleteQueue { ready, .. } => mix(h, *ready as u64),
                _ => h,
            }),
            nontrivial: created > 0,
            sample: Some(json!({"computations": rounds, "elements": n, "result_queues": created, "held_leases": kept})),
            counts: vec![("result_queues_created_and_deleted", created), ("held_leases", kept as u64)],
        })
    })
}
