//! Workloads over a coordinated channel, shared by C12 and C13.
use std::{
    collections::{HashMap, HashSet, VecDeque},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};

use anyhow::{bail, Result};
use async_trait::async_trait;
use futures::{Stream, StreamExt};
use paladin::{
    acker::Acker,
    channel::coordinated_channel::{coordinated_channel, coordinated_publisher::CoordinatedPublisherError},
    queue::{
        in_memory::{InMemoryConnection, InMemoryConsumer, InMemoryPublisher},
        Connection, Publisher, QueueHandle, SyndicationMode,
    },
};
use serde_json::json;

use super::c09::{any_ser, options};
use crate::{
    driver::{Bad, Seen},
    ensure,
    env::within,
    rng::{mix, Rng},
};

/// An unbounded in-process queue.
#[derive(Default)]
pub struct Pipe {
    pub queue: VecDeque<u64>,
    pub waker: Option<Waker>,
    pub ended: bool,
}

pub type Shared = Arc<Mutex<Pipe>>;

pub fn push(p: &Shared, x: u64) {
    let w = {
        let mut p = p.lock().unwrap();
        p.queue.push_back(x);
        p.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub enum Rx {
    Pipe(Shared),
    Memory(InMemoryConsumer<u64>),
}

impl Stream for Rx {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        match &mut *self {
            Rx::Pipe(p) => {
                let mut p = p.lock().unwrap();
                match p.queue.pop_front() {
                    Some(x) => Poll::Ready(Some(x)),
                    None if p.ended => Poll::Ready(None),
                    None => {
                        p.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
            Rx::Memory(c) => Pin::new(c).poll_next(cx).map(|x| x.map(|x| x.0)),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Gap {
    None,
    Yields(u64),
    Sleep(u64),
}

pub fn any_gap(rng: &mut Rng) -> Gap {
    match rng.below(5) {
        0 | 1 => Gap::None,
        2 | 3 => Gap::Yields(rng.range(1, 4)),
        _ => Gap::Sleep(rng.range(1, 30)),
    }
}

/// Timers of real-time runs are in units of 50 microseconds.
pub async fn gap(g: Gap, virt: bool) {
    match g {
        Gap::None => {}
        Gap::Yields(n) => {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        }
        Gap::Sleep(n) => {
            tokio::time::sleep(if virt { Duration::from_millis(n) } else { Duration::from_micros(50 * n) }).await
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Start(u64),
    Pushed(u64),
    Ok(u64),
    Refused(u64),
    Failed(u64),
    /// One of the sending end's handles is about to be dropped, or the last one.
    Dropping,
    LastDropping,
    CloseStart,
    CloseEnd,
    Recv(u64),
    AckStart(u64),
    End,
}

pub type Log = Arc<Mutex<Vec<Ev>>>;

pub enum Inner {
    Pipe(Shared),
    Memory(InMemoryPublisher<u64>),
}

/// The underlying publisher: takes its time, and may fail before anything is
/// delivered.
pub struct Tx {
    inner: Inner,
    log: Log,
    fail_percent: u64,
    seed: u64,
    virt: bool,
}

#[async_trait]
impl Publisher<u64> for Tx {
    async fn publish(&self, x: &u64) -> Result<()> {
        let mut rng = Rng::new(mix(self.seed, *x));
        gap(any_gap(&mut rng), self.virt).await;
        if rng.chance(self.fail_percent) {
            bail!("inner publisher failed")
        }
        self.log.lock().unwrap().push(Ev::Pushed(*x));
        match &self.inner {
            Inner::Pipe(p) => push(p, *x),
            Inner::Memory(p) => p.publish(x).await?,
        }
        gap(any_gap(&mut rng), self.virt).await;
        Ok(())
    }
    async fn close(&self) -> Result<()> {
        let mut rng = Rng::new(self.seed);
        gap(any_gap(&mut rng), self.virt).await;
        Ok(())
    }
}

/// A random history; the log is to be checked by the caller.
pub async fn history(seed: u64, virt: bool) -> Result<(Vec<Ev>, Seen), Bad> {
    let mut rng = Rng::new(seed);
    let log: Log = Default::default();
    let publishers = rng.range(1, 4);
    let per = match rng.below(200) {
        0 => rng.range(60, 300),
        _ => *rng.pick(&[0u64, 1, 1, 2, 4, 12]),
    };
    let fail_percent = *rng.pick(&[0, 0, 20, 100]);
    let (inner, rx) = if rng.chance(35) {
        let conn = InMemoryConnection::new(any_ser(&mut rng));
        let opts = options(&mut rng, SyndicationMode::ExactlyOnce);
        let q = conn.declare_queue("q", opts).await?;
        (Inner::Memory(q.publisher()), Rx::Memory(q.declare_consumer("c").await?))
    } else {
        let p = Shared::default();
        (Inner::Pipe(p.clone()), Rx::Pipe(p))
    };
    let tx = Tx { inner, log: log.clone(), fail_percent, seed: rng.u64(), virt };
    let (publisher, stream) = coordinated_channel::<u64, u64, _, _>(tx, rx);
    let publisher = Arc::new(publisher);
    // 0: a task closes at any time; 1: closed after the last publish; 2: dropped;
    // 3: closed and then dropped twice over.
    let mode = rng.below(4);
    let moves = rng.chance(50);
    let slow_ack = rng.chance(60);
    let ser_ack = rng.chance(30);
    let mut tasks = vec![];
    for p in 0..publishers {
        let (publisher, log) = (publisher.clone(), log.clone());
        let mut rng = rng.fork();
        tasks.push(tokio::spawn(async move {
            for s in 0..per {
                gap(any_gap(&mut rng), virt).await;
                let id = p * 1000 + s;
                log.lock().unwrap().push(Ev::Start(id));
                let r = publisher.publish(&id).await;
                let ev = match r {
                    Ok(()) => Ev::Ok(id),
                    Err(e) => match e.downcast_ref::<CoordinatedPublisherError>() {
                        Some(CoordinatedPublisherError::PublisherClosed) => Ev::Refused(id),
                        _ => Ev::Failed(id),
                    },
                };
                log.lock().unwrap().push(ev);
            }
            // The drop of the last handle closes the channel.
            {
                let mut l = log.lock().unwrap();
                let others = l.iter().filter(|e| **e == Ev::Dropping).count() as u64;
                l.push(if mode == 2 && others + 1 == publishers { Ev::LastDropping } else { Ev::Dropping });
            }
            drop(publisher);
        }));
    }
    if mode == 0 || mode == 3 {
        let (publisher, log) = (publisher.clone(), log.clone());
        let mut rng = rng.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..rng.below(4) {
                gap(any_gap(&mut rng), virt).await;
            }
            for i in 0..if mode == 3 { 2 } else { 1 } {
                log.lock().unwrap().push(Ev::CloseStart);
                _ = publisher.close().await;
                log.lock().unwrap().push(Ev::CloseEnd);
                gap(any_gap(&mut rng), virt).await;
                // Refused from now on.
                let id = 900_000 + i;
                log.lock().unwrap().push(Ev::Start(id));
                let r = publisher.publish(&id).await;
                log.lock().unwrap().push(if r.is_ok() { Ev::Ok(id) } else { Ev::Refused(id) });
            }
        }));
    }
    let closer = (mode == 1).then(|| publisher.clone());
    drop(publisher);
    // The receiving end: one task after another, each with acknowledgements in
    // tasks of their own.
    let rlog = log.clone();
    let mut rrng = rng.fork();
    let receiver = tokio::spawn(async move {
        let mut stream = Some(Box::pin(stream));
        let mut ackers: Vec<tokio::task::JoinHandle<()>> = vec![];
        loop {
            let mut s = stream.take().unwrap();
            let log = rlog.clone();
            let mut rng = rrng.fork();
            let hop = if moves { rng.range(1, 3) } else { u64::MAX };
            let t = tokio::spawn(async move {
                let mut ackers = vec![];
                let mut n = 0;
                loop {
                    // Moving on also happens while the receive is pending.
                    let item = if moves {
                        tokio::select! {
                            biased;
                            x = s.next() => x,
                            _ = gap(any_gap(&mut rng), virt) => return (Some(s), ackers),
                        }
                    } else {
                        s.next().await
                    };
                    let Some((id, acker)) = item else {
                        log.lock().unwrap().push(Ev::End);
                        return (None, ackers);
                    };
                    log.lock().unwrap().push(Ev::Recv(id));
                    let l = log.clone();
                    let mut r = rng.fork();
                    let settle = async move {
                        if slow_ack {
                            gap(any_gap(&mut r), virt).await;
                        }
                        l.lock().unwrap().push(Ev::AckStart(id));
                        match r.below(3) {
                            0 => _ = Acker::ack(&acker).await,
                            1 => _ = Acker::nack(&acker).await,
                            _ => acker.ack(),
                        }
                        // Once more, later.
                        if r.chance(40) {
                            gap(any_gap(&mut r), virt).await;
                            for _ in 0..r.range(1, 3) {
                                if r.chance(50) {
                                    acker.nack()
                                } else {
                                    _ = Acker::ack(&acker).await;
                                }
                            }
                        }
                    };
                    if ser_ack {
                        settle.await;
                    } else {
                        ackers.push(tokio::spawn(settle));
                    }
                    n += 1;
                    if n >= hop {
                        return (Some(s), ackers);
                    }
                }
            });
            let (s, a) = t.await.map_err(|e| e.to_string())?;
            ackers.extend(a);
            match s {
                Some(s) => stream = Some(s),
                None => break,
            }
            if rrng.chance(30) {
                gap(any_gap(&mut rrng), virt).await;
            }
        }
        for a in ackers {
            a.await.map_err(|e| e.to_string())?;
        }
        Ok::<(), String>(())
    });
    for (i, t) in tasks.into_iter().enumerate() {
        within(&format!("party {i} of the sending end"), t).await?.map_err(|e| Bad::Inconclusive(e.to_string()))?;
    }
    if let Some(c) = closer {
        log.lock().unwrap().push(Ev::CloseStart);
        within("closing", c.close()).await??;
        log.lock().unwrap().push(Ev::CloseEnd);
    }
    let shape = format!(
        "{publishers} publishers of {per} items ({fail_percent}% fail), ended by {}",
        ["a close at any time", "a close at the end", "dropping", "two closes and dropping"][mode as usize]
    );
    within(&format!("the receiving end ({shape}; log {:?})", tail(&log)), receiver)
        .await?
        .map_err(|e| Bad::Inconclusive(e.to_string()))?
        .map_err(Bad::Inconclusive)?;
    let log = log.lock().unwrap().clone();
    let sig = log.iter().fold(mode, |h, e| format!("{e:?}").bytes().fold(h, |h, b| mix(h, b as u64)));
    let n = |f: fn(&Ev) -> bool| log.iter().filter(|e| f(e)).count() as u64;
    let seen = Seen {
        sig,
        nontrivial: per > 0,
        sample: Some(json!({"shape": shape, "moved": moves, "history": format!("{:?}", log.iter().take(30).collect::<Vec<_>>())})),
        counts: vec![
            ("published", n(|e| matches!(e, Ev::Ok(_)))),
            ("refused", n(|e| matches!(e, Ev::Refused(_)))),
            ("failed", n(|e| matches!(e, Ev::Failed(_)))),
            ("received", n(|e| matches!(e, Ev::Recv(_)))),
        ],
    };
    Ok((log, seen))
}

fn tail(log: &Log) -> Vec<Ev> {
    let l = log.lock().unwrap();
    l[l.len().saturating_sub(30)..].to_vec()
}

/// The receiving end ended only after it was allowed to, and what was refused
/// reached nobody.
pub fn check_no_early_end(log: &[Ev]) -> Result<(), Bad> {
    let at = |e: Ev| log.iter().position(|x| *x == e);
    let end = at(Ev::End).ok_or(Bad::Inconclusive("no end in the log".into()))?;
    let close = at(Ev::CloseStart).or(at(Ev::LastDropping));
    ensure!(close.is_some_and(|c| c < end), "the receiving end ended while the sending end was open: {log:?}");
    let closed = at(Ev::CloseEnd).unwrap_or(usize::MAX);
    let mut recv = HashSet::new();
    for e in log {
        if let Ev::Recv(id) = e {
            ensure!(recv.insert(*id), "item {id} was received twice: {log:?}");
            ensure!(at(Ev::Pushed(*id)).is_some(), "item {id} was received without being published: {log:?}");
        }
    }
    let outcome: HashMap<u64, Ev> = log
        .iter()
        .filter_map(|e| match e {
            Ev::Ok(id) | Ev::Refused(id) | Ev::Failed(id) => Some((*id, *e)),
            _ => None,
        })
        .collect();
    for (id, out) in &outcome {
        match out {
            Ev::Ok(_) => {
                ensure!(
                    at(Ev::Start(*id)).unwrap() < closed,
                    "item {id}, whose publication started after the close, was accepted: {log:?}"
                );
                ensure!(
                    at(Ev::Recv(*id)).is_some_and(|r| r < end),
                    "the receiving end ended before item {id} was received: {log:?}"
                );
                ensure!(
                    at(Ev::AckStart(*id)).is_some_and(|r| r < end),
                    "the receiving end ended before item {id} was acknowledged: {log:?}"
                );
            }
            _ => ensure!(
                at(Ev::Pushed(*id)).is_none(),
                "item {id} was not accepted ({out:?}) but reached the underlying publisher: {log:?}"
            ),
        }
    }
    Ok(())
}
