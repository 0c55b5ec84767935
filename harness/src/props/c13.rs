//! C13: a coordinated channel ends, promptly, once closed and drained.
use std::{
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use anyhow::{bail, Result};
use async_trait::async_trait;
use futures::{FutureExt, Stream, StreamExt};
use paladin::{
    acker::Acker,
    channel::coordinated_channel::{coordinated_channel, coordinated_stream::CoordinatedAcker},
    queue::Publisher,
};
use serde_json::json;

use super::coord::{history, push, Rx, Shared};
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "one case is a history of a coordinated channel (as for C12), whose receiving end must end (decided exactly in \
               virtual time, by quiescence in real time); or a sequence of steps against an exact model of when a poll is \
               ready and that the latest waker was woken; or a race of closing, the last acknowledgement and the receive on \
               threads. Non-trivial if anything was published; distinct by the history",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 8000, thorough: 20, threads: 6, secs: 20, min: 100 },
            Family { name: "steps", run: steps, quick: 40_000, thorough: 20, threads: 6, secs: 15, min: 100 },
            Family { name: "race", run: race, quick: 60, thorough: 20, threads: 2, secs: 15, min: 2 },
            Family { name: "instructions", run: super::instr::c13, quick: 192, thorough: 3, threads: 5, secs: 15, min: 20 },
            Family { name: "real-time", run: real, quick: 2000, thorough: 15, threads: 3, secs: 20, min: 50 },
        ],
        assumptions: vec!["publish calls are awaited to their end; a failed publish of the underlying publisher delivers nothing"],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, _: &Ctx) -> Res {
    vt(async { history(seed, true).await.map(|x| x.1) })
}

fn real(seed: u64, _: &Ctx) -> Res {
    mt(2 + (seed % 4) as usize, async move { history(seed, false).await.map(|x| x.1) })
}

#[derive(Default)]
struct CountWaker(AtomicU64);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// Publishes even numbers, and fails for odd ones.
pub struct Picky(pub Shared);
#[async_trait]
impl Publisher<u64> for Picky {
    async fn publish(&self, x: &u64) -> Result<()> {
        // After the end of the underlying stream, nothing can be delivered.
        if x % 2 == 1 || self.0.lock().unwrap().ended {
            bail!("picky")
        }
        push(&self.0, *x);
        Ok(())
    }
    async fn close(&self) -> Result<()> {
        Ok(())
    }
}

fn steps(seed: u64, _: &Ctx) -> Res {
    let mut rng = Rng::new(seed);
    let pipe = Shared::default();
    let (publisher, stream) = coordinated_channel::<u64, u64, _, _>(Picky(pipe.clone()), Rx::Pipe(pipe.clone()));
    let mut publisher = Some(publisher);
    let mut stream = Box::pin(stream);
    let wakers: Vec<Arc<CountWaker>> = (0..3).map(|_| Arc::default()).collect();
    let mut trace: Vec<String> = vec![];
    // The model.
    let (mut queued, mut unacked, mut closed, mut inner_ended) = (0u64, 0u64, false, false);
    let mut waiting: Option<(usize, u64)> = None;
    let mut ackers: Vec<(bool, CoordinatedAcker)> = vec![];
    let mut next = 0u64;
    let mut ended = false;
    let (mut polls, mut wakes) = (0u64, 0u64);
    for _ in 0..rng.range(3, 30) {
        match rng.below(13) {
            0..=3 => {
                if let Some(p) = &publisher {
                    let x = next;
                    next += 1;
                    let r = p.publish(&x).now_or_never().ok_or(Bad::Violation("publish did not complete".into()))?;
                    trace.push(format!("publish {x}: {}", if r.is_ok() { "ok" } else { "refused or failed" }));
                    ensure!(r.is_ok() == (!closed && !inner_ended && x % 2 == 0), "{trace:?}: unexpected outcome");
                    if r.is_ok() {
                        queued += 1;
                    }
                }
            }
            4..=6 => {
                let k = rng.usize(3);
                let w = Waker::from(wakers[k].clone());
                let r = stream.as_mut().poll_next(&mut Context::from_waker(&w));
                polls += 1;
                let want = if ended {
                    // Nothing is promised about polls after the end.
                    break;
                } else if queued > 0 {
                    "an item"
                } else if closed && unacked == 0 {
                    "the end"
                } else {
                    "pending"
                };
                let got = match r {
                    Poll::Ready(Some((_, a))) => {
                        queued -= 1;
                        unacked += 1;
                        ackers.push((false, a));
                        waiting = None;
                        "an item"
                    }
                    Poll::Ready(None) => {
                        ended = true;
                        waiting = None;
                        "the end"
                    }
                    Poll::Pending => {
                        waiting = Some((k, wakers[k].0.load(Ordering::SeqCst)));
                        "pending"
                    }
                };
                trace.push(format!("poll with waker {k}: {got}"));
                // Nothing more can come from an underlying stream that has ended.
                let also = inner_ended && queued == 0 && unacked == 0 && got == "the end";
                ensure!(got == want || also, "{trace:?}: expected {want}");
            }
            7..=9 if !ackers.is_empty() => {
                let i = rng.usize(ackers.len());
                let (done, a) = &mut ackers[i];
                match rng.below(4) {
                    0 => a.ack(),
                    1 => a.nack(),
                    2 => _ = Acker::ack(a).now_or_never(),
                    _ => _ = Acker::nack(a).now_or_never(),
                }
                trace.push(format!("settle {i}{}", if *done { " again" } else { "" }));
                if !*done {
                    unacked -= 1;
                    *done = true;
                }
            }
            10 if rng.chance(60) => {
                if let Some(p) = &publisher {
                    p.close().now_or_never().ok_or(Bad::Violation("close did not complete".into()))??;
                    closed = true;
                    trace.push("close".into());
                }
            }
            11 if rng.chance(50) => {
                if publisher.take().is_some() {
                    closed = true;
                    trace.push("drop the sending end".into());
                }
            }
            12 if rng.chance(30) => {
                let w = {
                    let mut p = pipe.lock().unwrap();
                    p.ended = true;
                    p.waker.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
                inner_ended = true;
                trace.push("the underlying stream ends".into());
            }
            _ => continue,
        }
        let ready = queued > 0 || (closed && unacked == 0);
        if let Some((k, n)) = waiting {
            let now = wakers[k].0.load(Ordering::SeqCst);
            wakes += now - n;
            ensure!(
                !ready || now > n,
                "{trace:?}: the waiting receiver was not woken (queued {queued}, unacknowledged {unacked}, closed {closed})"
            );
        }
    }
    // In the end: everything is settled and the channel closed.
    drop(publisher);
    let w = Waker::from(wakers[0].clone());
    let mut guard = 0;
    while !ended {
        for (done, a) in ackers.drain(..) {
            if !done {
                a.ack();
            }
        }
        match stream.as_mut().poll_next(&mut Context::from_waker(&w)) {
            Poll::Ready(Some((_, a))) => ackers.push((false, a)),
            Poll::Ready(None) => ended = true,
            Poll::Pending => return Err(format!("{trace:?}; then closed and drained, but the receiving end does not end").into()),
        }
        guard += 1;
        ensure!(guard < 1000, "{trace:?}: endless items");
    }
    Ok(Seen {
        sig: trace.iter().fold(1, |h, s| s.bytes().fold(h, |h, b| mix(h, b as u64))),
        nontrivial: trace.len() > 3,
        sample: Some(json!({"steps": trace.iter().take(15).collect::<Vec<_>>()})),
        counts: vec![("polls", polls), ("wakes", wakes)],
    })
}

/// The same few operations on threads, over and over.
fn race(seed: u64, _: &Ctx) -> Res {
    let mut rng = Rng::new(seed);
    let rounds = 120;
    let mut sig = 0;
    for _ in 0..rounds {
        let items = rng.range(0, 3) * 2;
        let pipe = Shared::default();
        let (publisher, mut stream) = coordinated_channel::<u64, u64, _, _>(Picky(pipe.clone()), Rx::Pipe(pipe));
        for x in 0..items {
            _ = futures::executor::block_on(publisher.publish(&x));
        }
        let barrier = Arc::new(std::sync::Barrier::new(3));
        let (tx, rx) = std::sync::mpsc::channel::<CoordinatedAcker>();
        let spins: Vec<u64> = (0..3).map(|_| rng.below(400)).collect();
        let by_drop = rng.chance(50);
        let spin = |n: u64| (0..n).for_each(|_| std::hint::spin_loop());
        let (b1, b2, b3) = (barrier.clone(), barrier.clone(), barrier);
        let (s0, s1, s2) = (spins[0], spins[1], spins[2]);
        let closer = std::thread::spawn(move || {
            b1.wait();
            spin(s0);
            if by_drop {
                drop(publisher);
            } else {
                _ = futures::executor::block_on(publisher.close());
                std::mem::forget(publisher);
            }
        });
        let acker = std::thread::spawn(move || {
            b2.wait();
            spin(s1);
            let mut n = 0;
            for a in rx {
                a.ack();
                n += 1;
            }
            n
        });
        let receiver = std::thread::spawn(move || {
            b3.wait();
            spin(s2);
            let mut n = 0;
            while let Some((_, a)) = futures::executor::block_on(stream.next()) {
                n += 1;
                _ = tx.send(a);
            }
            n
        });
        let r = receiver.join().map_err(|_| Bad::Inconclusive("receiver panicked".into()))?;
        _ = closer.join();
        _ = acker.join();
        sig = mix(sig, r);
        ensure!(r == items / 2, "received {r} of {} items", items / 2);
    }
    Ok(Seen { sig: mix(sig, seed), nontrivial: true, sample: Some(json!({"rounds": rounds})), counts: vec![("rounds", rounds)] })
}

