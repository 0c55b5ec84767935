//! Preemptions at chosen instructions, of code that others use concurrently.
//!
//! One side of a pair of short concurrent histories is run one instruction at a
//! time, and the other acts between two of them; again, for many instructions.
use std::{
    collections::HashSet,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use anyhow::Result;
use futures::{FutureExt, Stream};
use paladin::{
    channel::coordinated_channel::{
        coordinated_channel, coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedAcker,
    },
    queue::Publisher,
};
use serde_json::json;

use super::{
    c13::Picky,
    coord::{Rx, Shared},
};
use crate::{
    driver::{Bad, Ctx, Res, Seen},
    ensure,
    rng::mix,
    step::{stepped, traced, At},
};

#[derive(Default)]
pub struct Wakes(AtomicU64);
impl Wake for Wakes {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Wakes {
    fn count(&self) -> u64 {
        self.0.load(Ordering::SeqCst)
    }
}

/// How a case is run: to see what instructions there are, or with a preemption.
pub enum How<'a> {
    Trace(&'a mut Vec<u64>),
    At(u64, &'a mut At),
}

impl How<'_> {
    pub fn run<R, A: Send>(self, f: impl FnOnce() -> R, other: impl FnOnce() -> A + Send) -> (R, A) {
        match self {
            How::Trace(to) => {
                let (r, o, trace) = traced(f, other);
                *to = trace;
                (r, o)
            }
            How::At(ip, to) => {
                let (r, o, at) = stepped(ip, f, other);
                *to = at;
                (r, o)
            }
        }
    }
}

/// Parts into which the instructions of a case are divided.
pub const PARTS: u64 = 12;

/// Runs a case, and returns a signature of its outcome, with preemptions at one
/// in `PARTS` of its instructions.
pub fn sweep(part: u64, what: &str, mut one: impl FnMut(How) -> Result<u64, Bad>) -> Res {
    let mut trace = vec![];
    // Twice, as the first time around is not like the others.
    one(How::Trace(&mut trace))?;
    one(How::Trace(&mut trace))?;
    let (mut within, mut blocked) = (0, 0);
    let mut outcomes = HashSet::new();
    let mut sig = what.bytes().fold(part, |s, b| mix(s, b as u64));
    for (i, ip) in trace.iter().enumerate() {
        if i as u64 % PARTS != part {
            continue;
        }
        let mut a = At::default();
        let outcome = one(How::At(*ip, &mut a)).map_err(|e| match e {
            Bad::Violation(e) => Bad::Violation(format!("{what}; interrupted at instruction {i} of {}: {e}", trace.len())),
            e => e,
        })?;
        within += a.within as u64;
        blocked += a.blocked as u64;
        outcomes.insert(outcome);
        sig = mix(sig, mix(i as u64, outcome));
    }
    Ok(Seen {
        sig,
        nontrivial: within > 0,
        sample: Some(json!({"case": what, "instructions": trace.len(), "interruptions": within, "outcomes": outcomes.len()})),
        counts: vec![("interruptions", within), ("interruptions_while_locked", blocked)],
    })
}

// Coordinated channels.

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Publish,
    Fail,
    Close,
    Drop,
    Poll,
    Settle,
}

type Tx = Arc<CoordinatedPublisher<u64, Picky>>;

/// What a side may use; the sending end may be shared.
struct Side {
    tx: Option<Tx>,
    base: u64,
    rx: Option<Rec>,
    ackers: Vec<CoordinatedAcker>,
    published: Vec<u64>,
    /// Whether this side closed the channel.
    closed: bool,
    log: Vec<String>,
}

struct Rec {
    stream: Pin<Box<dyn Stream<Item = (u64, CoordinatedAcker)> + Send>>,
    got: Vec<u64>,
    kept: Vec<CoordinatedAcker>,
    settle: bool,
    wakes: Arc<Wakes>,
    /// The count of wakes when the last poll, which was pending, began.
    waiting: Option<u64>,
    ended: bool,
}

impl Rec {
    fn poll(&mut self) -> String {
        if self.ended {
            return "-".into();
        }
        let w = Waker::from(self.wakes.clone());
        let before = self.wakes.count();
        match self.stream.as_mut().poll_next(&mut Context::from_waker(&w)) {
            Poll::Ready(Some((x, a))) => {
                self.got.push(x);
                self.waiting = None;
                if self.settle {
                    a.ack();
                } else {
                    self.kept.push(a);
                }
                format!("got {x}")
            }
            Poll::Ready(None) => {
                self.ended = true;
                self.waiting = None;
                "end".into()
            }
            Poll::Pending => {
                self.waiting = Some(before);
                "pending".into()
            }
        }
    }
}

impl Side {
    fn act(&mut self, acts: &[Act]) {
        for a in acts {
            match a {
                Act::Publish | Act::Fail => {
                    if let Some(tx) = &self.tx {
                        self.base += 2;
                        let x = self.base + (*a == Act::Fail) as u64;
                        match tx.publish(&x).now_or_never() {
                            None => self.log.push("publish pending".into()),
                            Some(Ok(())) => {
                                self.published.push(x);
                                self.log.push(format!("publish {x} ok"));
                            }
                            Some(Err(_)) => self.log.push(format!("publish {x} failed")),
                        }
                    }
                }
                Act::Close => {
                    if let Some(tx) = &self.tx {
                        self.closed |= matches!(tx.close().now_or_never(), Some(Ok(())));
                        self.log.push("close".into());
                    }
                }
                Act::Drop => {
                    self.closed |= self.tx.take().is_some_and(|tx| Arc::into_inner(tx).is_some());
                    self.log.push("drop".into());
                }
                Act::Poll => {
                    if let Some(rx) = &mut self.rx {
                        let r = rx.poll();
                        self.log.push(r);
                    }
                }
                Act::Settle => {
                    if let Some(a) = self.ackers.pop() {
                        a.ack();
                        self.log.push("ack".into());
                    }
                }
            }
        }
    }
}

/// Runs pairs of short histories of a coordinated channel. `end`: whether that
/// it ends is in question (C13), or that it ends too early (C12).
pub fn coordinated(slot: u64, end: bool) -> Res {
    use Act::*;
    // (published before, received of them, closed before, acknowledging, what
    // the receiving side does, what the other does, whether that is stepped)
    let cases: &[(u64, u64, bool, bool, &[Act], &[Act], bool)] = &[
        (0, 0, false, true, &[Poll], &[Publish, Close], false),
        (0, 0, false, true, &[Poll, Close, Poll], &[Publish], true),
        (0, 0, false, true, &[Poll], &[Close], false),
        (0, 0, false, true, &[Poll], &[Drop], false),
        (1, 1, true, true, &[Poll], &[Settle], false),
        (1, 1, true, true, &[Poll], &[Settle], true),
        (0, 0, false, true, &[Poll], &[Close], true),
        (0, 0, false, true, &[Poll], &[Drop], true),
        (0, 0, false, true, &[Close, Poll], &[Publish], true),
        (0, 0, false, false, &[Poll, Poll], &[Publish, Drop], false),
        (0, 0, false, true, &[Poll, Poll], &[Fail, Drop], false),
        (0, 0, false, true, &[Close, Poll], &[Fail], true),
        (1, 0, false, true, &[Poll, Poll], &[Publish, Close], false),
        (2, 2, false, true, &[Poll], &[Settle, Close, Settle], false),
        (2, 2, true, true, &[Poll, Poll], &[Settle, Settle], true),
        (1, 1, false, true, &[Poll, Close, Poll], &[Settle, Publish], true),
    ];
    let (early, held, closed, settle, receive, other, step_other) = cases[slot as usize % cases.len()];
    let shared = receive.iter().any(|a| *a != Poll);
    let stepped_receive = !step_other;
    let what = format!(
        "{early} published, {held} of them received and held, {}{receive:?} on one side{}, {other:?} on another; stepping the {}",
        if closed { "closed, " } else { "" },
        if settle { ", acknowledging" } else { "" },
        if stepped_receive { "first" } else { "second" }
    );
    sweep(slot / cases.len() as u64 % PARTS, &what, |how| {
        let pipe = Shared::default();
        let (tx, stream) = coordinated_channel::<u64, u64, _, _>(Picky(pipe.clone()), Rx::Pipe(pipe));
        let tx = Arc::new(tx);
        let mut rec = Rec {
            stream: Box::pin(stream),
            got: vec![],
            kept: vec![],
            settle,
            wakes: Arc::default(),
            waiting: None,
            ended: false,
        };
        let mut ackers = vec![];
        for i in 0..early {
            tx.publish(&(i * 2)).now_or_never().ok_or("publish pending".to_string())??;
        }
        rec.settle = false;
        for _ in 0..held {
            rec.poll();
            ackers.append(&mut rec.kept);
        }
        rec.settle = settle;
        if closed {
            tx.close().now_or_never().ok_or("close pending".to_string())??;
        }
        let side = |base, tx, rx, ackers| Side { tx, base, rx, ackers, published: vec![], closed: false, log: vec![] };
        let a = side(1000, shared.then(|| tx.clone()), Some(rec), vec![]);
        let b = side(2000, Some(tx), None, ackers);
        let (f, g, facts, gacts) = if stepped_receive { (a, b, receive, other) } else { (b, a, other, receive) };
        let (mut f, mut g) = (f, g);
        how.run(|| f.act(facts), || g.act(gacts));
        let log = format!("{:?} and {:?}", f.log, g.log);
        let closed = closed || f.closed || g.closed;
        let mut rec = f.rx.take().or(g.rx.take()).expect("the receiving end");
        let held: Vec<_> = f.ackers.drain(..).chain(g.ackers.drain(..)).chain(rec.kept.drain(..)).collect();
        let mut sent: Vec<u64> = (0..early).map(|i| i * 2).chain(f.published.drain(..)).chain(g.published.drain(..)).collect();
        sent.sort();
        let outcome = log.bytes().fold(0, |s, b| mix(s, b as u64));
        let left = sent.len() - rec.got.len().min(sent.len());
        if rec.ended {
            ensure!(
                left == 0 && held.is_empty() && closed,
                "{log}: the receiving end has ended{} with {left} items not received and {} not acknowledged",
                if closed { "" } else { " before the close" },
                held.len()
            );
        }
        // As an executor would, poll it again only as its waker was called.
        let ready = left > 0 || closed && held.is_empty();
        if let Some(before) = rec.waiting {
            ensure!(
                !end || !ready || rec.wakes.count() > before,
                "{log}: the waiting receiver was not woken ({left} items queued, {} unacknowledged, closed: {closed})",
                held.len()
            );
        }
        // Then all is received, acknowledged and closed.
        drop((f, g));
        held.iter().for_each(|a| a.ack());
        rec.settle = true;
        let mut guard = 0;
        while !rec.ended && guard <= left + 1 {
            guard += 1;
            rec.poll();
        }
        if end {
            ensure!(rec.ended, "{log}: once closed and drained, the receiving end does not end");
        }
        rec.got.sort();
        ensure!(rec.got == sent, "{log}: received {:?} of {sent:?}", rec.got);
        Ok(outcome)
    })
}

pub fn c12(_: u64, ctx: &Ctx) -> Res {
    coordinated(ctx.index, false)
}
pub fn c13(_: u64, ctx: &Ctx) -> Res {
    coordinated(ctx.index, true)
}
