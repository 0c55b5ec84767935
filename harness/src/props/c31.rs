//! C31: an identifier denotes one channel, for all of its holders.
use std::{
    collections::{HashMap, HashSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    channel::{queue::QueueChannelFactory, queue::QueueChannel, Channel, ChannelFactory, ChannelType},
    queue::{in_memory::InMemoryConnection, Connection, Publisher, QueueHandle},
};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, connect, until},
    c09::{any_ser, Msg},
    common::alike,
};
use crate::{
    broker::{Broker, Ev},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        level: "exploration",
        rule: "one case takes and uses ends of 1 to 5 channels of both kinds, issued or gotten by alike identifiers from \
               several factories (and, in memory, a separate connection that uses the same identifiers): 5 to 60 generated \
               steps take senders and receivers, send in bursts from several senders at once, and drop ends and channels; one \
               channel may be released at the end, and the others used on. What each receiver got is compared with what was \
               sent. In virtual time, on several threads, and over a fake broker. Distinct by the history",
        families: vec![
            Family { name: "virtual", run: virt, quick: 4000, thorough: 20, threads: 6, secs: 15, min: 50 },
            Family { name: "real", run: real, quick: 500, thorough: 20, threads: 3, secs: 15, min: 20 },
            Family { name: "amqp", run: amqp, quick: 200, thorough: 15, threads: 5, secs: 25, min: 10 },
        ],
        assumptions: vec![
            "an identifier is used with one kind of channel; items are of one type",
            "over AMQP: the broker is a fake one; receivers are not dropped",
        ],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, _: &Ctx) -> Res {
    vt(async move {
        let mut rng = Rng::new(seed);
        in_memory(&mut rng).await
    })
}

fn real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 5) as usize, async move {
        let mut rng = Rng::new(seed);
        in_memory(&mut rng).await
    })
}

async fn in_memory(rng: &mut Rng) -> Res {
    let ser = any_ser(rng);
    let conn = InMemoryConnection::new(ser);
    let mut groups = vec![];
    for _ in 0..rng.range(1, 4) {
        groups.push((0u64, conn.clone()));
    }
    if rng.chance(60) {
        groups.push((1, InMemoryConnection::new(ser)));
    }
    scenario(rng, groups, None).await
}

fn amqp(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let ser = any_ser(&mut rng);
        let mut groups = vec![];
        for _ in 0..rng.range(1, 3) {
            let qos = *rng.pick(&[None, Some(1), Some(3)]);
            groups.push((0, connect(&b, qos, ser).await?.1));
        }
        scenario(&mut rng, groups, Some(b)).await
    })
}

type Log = Arc<Mutex<Vec<(u32, u32, bool)>>>;

struct Receiver {
    got: Log,
    /// Of a broadcast: how much had been sent before.
    from: usize,
    alive: bool,
    task: tokio::task::JoinHandle<()>,
}

impl Drop for Receiver {
    fn drop(&mut self) {
        self.task.abort();
    }
}

/// What the identifier of a channel denotes (on one connection or broker).
struct Chan {
    id: String,
    group: u64,
    kind: ChannelType,
    /// (burst and sender, sequence number)
    sent: Vec<(u32, u32)>,
    receivers: Vec<Receiver>,
}

async fn scenario<H, C>(rng: &mut Rng, conns: Vec<(u64, C)>, b: Option<Arc<Broker>>) -> Res
where
    H: QueueHandle + Send + Sync + 'static,
    C: Connection<QueueHandle = H> + Send + Sync + 'static,
    H::Publisher<Msg>: Send + Sync + 'static,
    H::Consumer<Msg>: Send + Unpin + 'static,
    H::Acker: 'static,
{
    let factories: Vec<(u64, QueueChannelFactory<C>)> =
        conns.iter().map(|(g, c)| (*g, QueueChannelFactory::new(c.clone()))).collect();
    let n = rng.range(1, 5) as usize;
    let names = alike(rng, n);
    let mut chans: Vec<Chan> = vec![];
    // Handles of channels, senders.
    let mut handles: Vec<(usize, QueueChannel<C>)> = vec![];
    let mut senders: Vec<(usize, Arc<H::Publisher<Msg>>)> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut received_elsewhere = 0;
    for name in names {
        let kind = if rng.chance(40) { ChannelType::Broadcast } else { ChannelType::ExactlyOnce };
        let (group, f) = rng.pick(&factories);
        let (id, handle) = if rng.chance(50) {
            f.issue(kind).await?
        } else {
            (name.clone(), f.get(name.clone(), kind).await?)
        };
        handles.push((chans.len(), handle));
        chans.push(Chan { id: id.clone(), group: *group, kind, sent: vec![], receivers: vec![] });
        // The same identifier on the other connection is another channel.
        if let Some((other, f)) = factories.iter().find(|(g, _)| g != group) {
            if rng.chance(60) {
                let kind = if rng.chance(40) { ChannelType::Broadcast } else { ChannelType::ExactlyOnce };
                handles.push((chans.len(), f.get(id.clone(), kind).await?));
                chans.push(Chan { id, group: *other, kind, sent: vec![], receivers: vec![] });
            }
        }
    }
    let ids: HashSet<_> = chans.iter().map(|c| (c.group, &c.id)).collect();
    ensure!(ids.len() == chans.len(), "two channels were issued the same identifier");
    let mut burst = 0u32;
    let mut total_sent = 0;
    let steps = rng.range(5, 60);
    for _ in 0..steps {
        let c = rng.usize(chans.len());
        match rng.below(12) {
            // Another handle.
            0..=1 => {
                let same: Vec<_> = factories.iter().filter(|(g, _)| *g == chans[c].group).collect();
                let handle = if rng.chance(40) && handles.iter().any(|h| h.0 == c) {
                    handles.iter().find(|h| h.0 == c).unwrap().1.clone()
                } else {
                    rng.pick(&same).1.get(chans[c].id.clone(), chans[c].kind).await?
                };
                handles.push((c, handle));
            }
            2 if handles.len() > chans.len() => {
                let k = rng.usize(handles.len());
                let c = handles[k].0;
                if handles.iter().filter(|h| h.0 == c).count() > 1 {
                    handles.swap_remove(k);
                }
            }
            3..=4 => {
                let (c, h) = rng.pick(&handles).clone();
                senders.push((c, Arc::new(h.sender::<Msg>().await?)));
                trace.push(format!("sender {c}"));
            }
            5 if !senders.is_empty() => {
                let k = rng.usize(senders.len());
                let (c, s) = senders.swap_remove(k);
                if rng.chance(50) {
                    s.close().await?;
                }
                trace.push(format!("drop sender {c}"));
            }
            6..=7 => {
                let (c, h) = rng.pick(&handles).clone();
                receiver(&mut chans[c], &h, rng.u64()).await?;
                trace.push(format!("receiver {c}"));
            }
            8 if b.is_none() => {
                // (A broadcast receiver that is gone is not looked at.)
                let alive: Vec<usize> = (0..chans[c].receivers.len()).filter(|i| chans[c].receivers[*i].alive).collect();
                if let Some(i) = (!alive.is_empty()).then(|| *rng.pick(&alive)) {
                    chans[c].receivers[i].alive = false;
                    chans[c].receivers[i].task.abort();
                    // The end is dropped when the task has ended.
                    while !chans[c].receivers[i].task.is_finished() {
                        tokio::task::yield_now().await;
                    }
                    received_elsewhere += 1;
                    trace.push(format!("drop receiver {c}"));
                }
            }
            9 => {
                for _ in 0..rng.below(5) {
                    tokio::task::yield_now().await;
                }
                if rng.chance(30) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
            _ if !senders.is_empty() => {
                // Several senders at once.
                let mut tasks = vec![];
                for _ in 0..rng.range(1, 4) {
                    let (c, s) = rng.pick(&senders).clone();
                    let n = if rng.chance(3) { rng.range(30, 400) } else { rng.range(1, 12) } as u32;
                    burst += 1;
                    total_sent += n as usize;
                    chans[c].sent.extend((0..n).map(|i| (burst, i)));
                    let (seed, burst) = (rng.u64(), burst);
                    trace.push(format!("send {n} to {c}"));
                    tasks.push(tokio::spawn(async move {
                        for i in 0..n {
                            s.publish(&Msg::new(burst, i)).await?;
                            if mix(seed, i as u64) % 4 == 0 {
                                tokio::task::yield_now().await;
                            }
                        }
                        anyhow::Ok(())
                    }));
                }
                for t in tasks {
                    let r = match &b {
                        Some(b) => until(b, "sending", t).await?,
                        None => within("sending", t).await?,
                    };
                    r.map_err(|e| Bad::Inconclusive(e.to_string()))??;
                }
                if let Some(b) = &b {
                    published(b, total_sent).await?;
                }
            }
            _ => {}
        }
    }
    settle(&mut chans, &handles, rng, &b).await?;
    // The release of a channel deletes that and nothing else.
    let release = chans.len() > 1 && rng.chance(60);
    let mut n_after = 0;
    if release {
        let c = rng.usize(chans.len());
        let h = handles.iter().find(|h| h.0 == c).unwrap().1.clone();
        h.release();
        let (id, group) = (chans[c].id.clone(), chans[c].group);
        match &b {
            Some(b) => {
                let i = id.clone();
                at_broker(b, "the deletion of a released channel", move |st| {
                    st.log.iter().any(|e| matches!(&e.ev, Ev::DeleteQueue { queue, .. } if *queue == i))
                })
                .await?;
                // (Whatever else would be deleted.)
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
            None => {
                for _ in 0..50 {
                    tokio::task::yield_now().await;
                }
                // In real time, until a new holder finds an empty channel, or for a while.
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        let mut rest: Vec<Chan> = vec![];
        let mut new_handles = vec![];
        for (i, x) in chans.drain(..).enumerate() {
            if i != c {
                new_handles.extend(handles.iter().filter(|h| h.0 == i).map(|h| (rest.len(), h.1.clone())));
                rest.push(x);
            }
        }
        chans = rest;
        for (c, h) in &new_handles {
            // Ends that are taken from now on reach those taken before.
            if rng.chance(50) {
                receiver(&mut chans[*c], h, rng.u64()).await?;
            }
            let s = h.sender::<Msg>().await?;
            burst += 1;
            for i in 0..rng.range(1, 4) as u32 {
                s.publish(&Msg::new(burst, i)).await?;
                chans[*c].sent.push((burst, i));
                n_after += 1;
                total_sent += 1;
            }
            if let Some(b) = &b {
                published(b, total_sent).await?;
            }
        }
        settle(&mut chans, &new_handles, rng, &b).await?;
        if let Some(b) = &b {
            let st = b.state();
            for e in &st.log {
                if let Ev::DeleteQueue { queue, .. } = &e.ev {
                    ensure!(*queue == id, "releasing {id:?} deleted {queue:?}");
                }
            }
        }
        trace.push(format!("release {group} {id:?}"));
    }
    let total: u64 = chans.iter().map(|c| c.sent.len() as u64).sum();
    let receivers: u64 = chans.iter().map(|c| c.receivers.len() as u64).sum();
    let mut sig = trace.iter().fold(0, |a, t| t.bytes().fold(a, |a, b| mix(a, b as u64)));
    for r in chans.iter().flat_map(|c| &c.receivers) {
        sig = r.got.lock().unwrap().iter().fold(mix(sig, 1), |a, x| mix(a, mix(x.0 as u64, x.1 as u64)));
    }
    Ok(Seen {
        sig,
        nontrivial: total > 0 && receivers > 1,
        sample: Some(json!({"channels": chans.len(), "connections": conns.len(), "steps": trace})),
        counts: vec![
            ("items", total),
            ("receivers", receivers),
            ("receivers_dropped", received_elsewhere),
            ("releases", release as u64),
            ("items_after_a_release", n_after),
        ],
    })
}

/// Waits until all that was sent is at the broker.
async fn published(b: &Arc<Broker>, want: usize) -> Result<(), Bad> {
    at_broker(b, "the arrival of what was sent", |st| {
        st.log.iter().filter(|e| matches!(e.ev, Ev::Publish { .. })).count() >= want
    })
    .await
}

async fn receiver<H, C>(chan: &mut Chan, h: &QueueChannel<C>, seed: u64) -> Result<(), Bad>
where
    H: QueueHandle + Send + Sync + 'static,
    C: Connection<QueueHandle = H> + Send + Sync + 'static,
    H::Consumer<Msg>: Send + Unpin + 'static,
    H::Acker: 'static,
{
    let mut r = h.receiver::<Msg>().await?;
    let got = Log::default();
    let g = got.clone();
    let task = tokio::spawn(async move {
        let mut n = 0;
        while let Some((m, acker)) = r.next().await {
            g.lock().unwrap().push((m.publisher, m.seq, m == Msg::new(m.publisher, m.seq)));
            _ = acker.ack().await;
            n += 1;
            if mix(seed, n) % 5 == 0 {
                tokio::task::yield_now().await;
            }
        }
    });
    chan.receivers.push(Receiver { got, from: chan.sent.len(), alive: true, task });
    Ok(())
}

/// Waits for what is to be received, and checks what was.
async fn settle<H, C>(chans: &mut [Chan], handles: &[(usize, QueueChannel<C>)], rng: &mut Rng, b: &Option<Arc<Broker>>) -> Result<(), Bad>
where
    H: QueueHandle + Send + Sync + 'static,
    C: Connection<QueueHandle = H> + Send + Sync + 'static,
    H::Consumer<Msg>: Send + Unpin + 'static,
    H::Acker: 'static,
{
    for (i, c) in chans.iter_mut().enumerate() {
        if c.kind == ChannelType::ExactlyOnce && !c.receivers.iter().any(|r| r.alive) {
            let h = handles.iter().find(|h| h.0 == i).expect("a handle");
            receiver(c, &h.1, rng.u64()).await?;
        }
    }
    for c in chans.iter() {
        let what = format!("the receipt of what was sent to {:?} ({:?})", c.id, c.kind);
        let all = async {
            let mut pause = 100;
            loop {
                let n: usize = c.receivers.iter().map(|r| r.got.lock().unwrap().len()).sum();
                let done = match c.kind {
                    ChannelType::ExactlyOnce => n >= c.sent.len(),
                    ChannelType::Broadcast => {
                        c.receivers.iter().enumerate().all(|(i, r)| !r.alive || r.got.lock().unwrap().len() >= wanted(c, i, b.is_some()).len())
                    }
                };
                if done {
                    return;
                }
                tokio::time::sleep(Duration::from_micros(pause)).await;
                pause = (pause * 2).min(20_000);
            }
        };
        match b {
            Some(b) => until(b, &what, all).await?,
            None => within(&what, all).await.map_err(|e| match e {
                Bad::Violation(e) => {
                    let got: Vec<usize> = c.receivers.iter().map(|r| r.got.lock().unwrap().len()).collect();
                    let from: Vec<usize> = c.receivers.iter().map(|r| r.from).collect();
                    Bad::Violation(format!("{e}: {} sent, received {got:?}, receivers taken after {from:?}", c.sent.len()))
                }
                e => e,
            })?,
        }
    }
    // Whatever else arrives.
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
    for c in chans.iter() {
        let mut counts: HashMap<(u32, u32), u32> = HashMap::new();
        for (i, r) in c.receivers.iter().enumerate() {
            let got = r.got.lock().unwrap().clone();
            ensure!(got.iter().all(|x| x.2), "an item arrived changed");
            let mut last: HashMap<u32, u32> = HashMap::new();
            for (s, n, _) in &got {
                let before = last.insert(*s, *n);
                ensure!(before.is_none_or(|x| x < *n), "items of one sender arrived out of order, or twice: {before:?}, {n}");
                *counts.entry((*s, *n)).or_default() += 1;
            }
            let sent: HashSet<_> = c.sent.iter().collect();
            for x in &got {
                ensure!(sent.contains(&(x.0, x.1)), "a receiver of {:?} got an item sent to another channel", c.id);
            }
            if matches!(c.kind, ChannelType::Broadcast) && r.alive {
                let mut got: Vec<_> = got.iter().map(|x| (x.0, x.1)).collect();
                let mut want = wanted(c, i, b.is_some());
                got.sort();
                want.sort();
                ensure!(got == want, "receiver {i} of the broadcast channel {:?} got {got:?} instead of {want:?}", c.id);
            }
        }
        if c.kind == ChannelType::ExactlyOnce {
            ensure!(counts.values().all(|n| *n == 1), "an item was received twice from {:?}", c.id);
            ensure!(counts.len() == c.sent.len(), "{} of {} items of {:?} were received", counts.len(), c.sent.len(), c.id);
        }
    }
    Ok(())
}

/// What a receiver of a broadcast channel has to get.
fn wanted(c: &Chan, i: usize, remote: bool) -> Vec<(u32, u32)> {
    // In memory, what is sent before there was a receiver is kept for the first.
    let from = if i == 0 && !remote { 0 } else { c.receivers[i].from };
    c.sent[from..].to_vec()
}
