//! Small concurrent uses of paladin's containers, to be interpreted by Miri.
//! `pv-miri SCENARIO` runs one; a violated expectation exits with 7.
use std::{
    collections::BTreeSet,
    ops::RangeInclusive,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Arc,
    },
    task::{Context, Poll},
    thread,
};

use futures::{executor::block_on, FutureExt, Stream, StreamExt};
use paladin::{
    acker::{Acker, ComposedAcker, NoopAcker},
    channel::{coordinated_channel::coordinated_channel, queue::QueueChannelFactory, Channel, ChannelFactory, ChannelType, LeaseGuard},
    contiguous::{Contiguous, ContiguousQueue},
    queue::{
        in_memory::InMemoryConnection, Connection, DeliveryMode, Publisher, PublisherExt, QueueDurability,
        QueueHandle, QueueOptions, SyndicationMode,
    },
    serializer::Serializer,
};

static ORDER: AtomicU64 = AtomicU64::new(0);
static PRINT: AtomicU64 = AtomicU64::new(0);

/// Notes an event: the print of an execution tells in which order they happened.
/// Relaxed, so that it does not synchronize the threads.
fn note(event: u64) {
    let n = ORDER.fetch_add(1, Ordering::Relaxed) + 1;
    let x = (n << 32 | event).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    PRINT.fetch_add(x ^ x >> 29, Ordering::Relaxed);
}

static STARTED: AtomicUsize = AtomicUsize::new(0);

/// Waits until `n` threads are here.
fn gate(n: usize) {
    STARTED.fetch_add(1, Ordering::Relaxed);
    while STARTED.load(Ordering::Relaxed) < n {
        thread::yield_now();
    }
}

/// A violated expectation (not undefined behaviour).
fn bad(what: String) -> ! {
    eprintln!("EXPECTATION: {what}");
    std::process::exit(7)
}

macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { bad(format!($($t)*)) } };
}

// ---- contiguous queue -------------------------------------------------

#[derive(Debug)]
struct Seg(RangeInclusive<u32>, Box<Vec<u32>>);

impl Seg {
    fn one(i: u32) -> Self {
        Seg(i..=i, Box::new(vec![i]))
    }
}

impl Contiguous for Seg {
    type Key = u32;
    fn is_contiguous(&self, other: &Self) -> bool {
        self.0.end() + 1 == *other.0.start() || other.0.end() + 1 == *self.0.start()
    }
    fn key(&self) -> &u32 {
        self.0.start()
    }
}

/// Threads offer the items and offer again what they combined.
fn contiguous_offer(n: u32, threads: u32) {
    let q = Arc::new(ContiguousQueue::<Seg>::new());
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let q = q.clone();
            thread::spawn(move || {
                gate(threads as usize);
                for i in (0..n).filter(|i| i % threads == t) {
                    let mut s = Seg::one(i);
                    note(i as u64);
                    while let Some((l, r)) = q.acquire_contiguous_pair_or_queue(s) {
                        check!(l.0.end() + 1 == *r.0.start(), "pair {l:?} {r:?}");
                        let mut v = l.1;
                        v.extend(r.1.iter());
                        note(100 + v.len() as u64 * 100 + v[0] as u64);
                        s = Seg(*l.0.start()..=*r.0.end(), v);
                    }
                }
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    match q.dequeue(&0) {
        Some(s) if *s.1 == (0..n).collect::<Vec<_>>() => {}
        other => bad(format!("left over: {other:?}")),
    }
}

/// Queueing, finding, taking and offering from several threads.
fn contiguous_mixed() {
    let q = Arc::new(ContiguousQueue::from((0..3).map(|i| Seg::one(i * 10))));
    let got = Arc::new(AtomicUsize::new(0));
    let mut handles = vec![];
    for t in 0..2u32 {
        let (q, got) = (q.clone(), got.clone());
        handles.push(thread::spawn(move || {
            gate(3);
            for i in 0..3u32 {
                if q.dequeue(&(i * 10)).is_some() {
                    got.fetch_add(1, Ordering::SeqCst);
                    note(i as u64);
                }
                note(10 + t as u64);
                q.queue(Seg::one(100 + t * 50 + i * 2));
                if let Some(p) = q.find_contiguous(&Seg::one(100 + t * 50 + i * 2 + 1)) {
                    drop(p);
                }
            }
        }));
    }
    gate(3);
    for i in 0..3u32 {
        note(20);
        drop(q.acquire_contiguous_pair_or_queue(Seg::one(i * 10 + 1)));
    }
    for h in handles {
        h.join().unwrap();
    }
    check!(got.load(Ordering::SeqCst) <= 3, "taken more often than queued");
}

// ---- in-memory queues -------------------------------------------------

fn options(syndication_mode: SyndicationMode, delivery_mode: DeliveryMode) -> QueueOptions {
    QueueOptions { syndication_mode, delivery_mode, durability: QueueDurability::NonDurable }
}

fn exactly_once(consumers: usize, per: u32) {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let mut handles = vec![];
    for p in 0..2u32 {
        let conn = conn.clone();
        handles.push(thread::spawn(move || {
            block_on(async {
                let q = conn.declare_queue("q", options(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent)).await.unwrap();
                let p_ = q.publisher::<Vec<u32>>();
                gate(2 + consumers);
                for i in 0..per {
                    p_.publish(&vec![p * 100 + i; 3]).await.unwrap();
                    note((p * 100 + i) as u64);
                }
            });
            vec![]
        }));
    }
    let left = Arc::new(AtomicUsize::new(2 * per as usize));
    for c in 0..consumers {
        let (conn, left) = (conn.clone(), left.clone());
        handles.push(thread::spawn(move || {
            block_on(async {
                let q = conn.declare_queue("q", options(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent)).await.unwrap();
                let mut k = q.declare_consumer::<Vec<u32>>(&c.to_string()).await.unwrap();
                let mut got = vec![];
                gate(2 + consumers);
                // Each consumer waits for its share, the first one for the rest.
                while left.load(Ordering::SeqCst) > 0 {
                    if consumers == 1 {
                        got.push(k.next().await.unwrap().0);
                        note(1000 + got[got.len() - 1][0] as u64);
                        left.fetch_sub(1, Ordering::SeqCst);
                    } else {
                        match k.next().now_or_never() {
                            Some(m) => {
                                got.push(m.unwrap().0);
                                note(1000 + c as u64 * 500 + got[got.len() - 1][0] as u64);
                                left.fetch_sub(1, Ordering::SeqCst);
                            }
                            None => {
                                // An abandoned receive; declare the consumer anew.
                                note(5000 + c as u64);
                                drop(k);
                                k = q.declare_consumer(&c.to_string()).await.unwrap();
                                thread::yield_now();
                            }
                        }
                    }
                }
                got
            })
        }));
    }
    let all: Vec<Vec<u32>> = handles.into_iter().flat_map(|h| h.join().unwrap()).collect();
    let set: BTreeSet<_> = all.iter().map(|v| v[0]).collect();
    check!(all.len() == 2 * per as usize && set.len() == all.len(), "received {all:?}");
}

fn broadcast() {
    let conn = InMemoryConnection::new(Serializer::Cbor);
    let o = options(SyndicationMode::Broadcast, DeliveryMode::Persistent);
    let q = block_on(conn.declare_queue("b", o)).unwrap();
    let mut first = block_on(q.declare_consumer::<u32>("first")).unwrap();
    let mut handles = vec![];
    for p in 0..2u32 {
        let conn = conn.clone();
        handles.push(thread::spawn(move || {
            block_on(async {
                let q = conn.declare_queue("b", o).await.unwrap();
                gate(3);
                for i in 0..2 {
                    q.publisher::<u32>().publish(&(p * 10 + i)).await.unwrap();
                    note((p * 10 + i) as u64);
                }
            })
        }));
    }
    let late = {
        let q = q.clone();
        thread::spawn(move || {
            gate(3);
            block_on(async {
                let mut c = q.declare_consumer::<u32>("late").await.unwrap();
                let mut n = 0;
                note(90);
                while let Some(Some((x, _))) = c.next().now_or_never() {
                    note(100 + x as u64);
                    n += 1;
                }
                n
            })
        })
    };
    let got: BTreeSet<u32> = block_on(async { first.by_ref().take(4).map(|(x, _)| { note(200 + x as u64); x }).collect().await });
    for h in handles {
        h.join().unwrap();
    }
    let n = late.join().unwrap();
    check!(n <= 4, "late consumer got {n}");
    check!(got == BTreeSet::from([0, 1, 10, 11]), "first consumer got {got:?}");
}

/// Messages kept for a consumer that is declared concurrently.
fn broadcast_history() {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let o = options(SyndicationMode::Broadcast, DeliveryMode::Persistent);
    let q = block_on(conn.declare_queue("b", o)).unwrap();
    let p = q.publisher::<u32>();
    let t = thread::spawn(move || {
        gate(2);
        block_on(async {
            p.publish(&1).await.unwrap();
            note(1);
            p.publish(&2).await.unwrap();
            note(2);
        })
    });
    gate(2);
    let mut c = block_on(q.declare_consumer::<u32>("c")).unwrap();
    let mut d = block_on(q.declare_consumer::<u32>("c")).unwrap();
    note(3);
    let got = thread::spawn(move || block_on(d.next()).unwrap().0);
    let a = block_on(c.next()).unwrap().0;
    note(10 + a as u64);
    let b = got.join().unwrap();
    t.join().unwrap();
    check!(a + b == 3, "received {a} and {b}");
}

fn declare_delete() {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let handles: Vec<_> = (0..3u32)
        .map(|t| {
            let conn = conn.clone();
            thread::spawn(move || {
                gate(3);
                block_on(async {
                    for i in 0..2 {
                        let q = conn.declare_queue("x", QueueOptions::default()).await.unwrap();
                        q.publisher::<u32>().publish(&(t * 10 + i)).await.unwrap();
                        let mut c = q.declare_consumer::<u32>("c").await.unwrap();
                        note((t * 10) as u64 + c.next().now_or_never().map_or(0, |m| 100 + m.unwrap().0 as u64));
                        conn.delete_queue("x").await.unwrap();
                    }
                })
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
}

// ---- coordinated channels ---------------------------------------------

fn coordinated(explicit_close: bool, share_acks: bool) {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let q = block_on(conn.declare_queue("q", options(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent))).unwrap();
    let consumer = block_on(q.declare_consumer::<u32>("c")).unwrap();
    let (tx, rx) = coordinated_channel(q.publisher::<u32>(), consumer);
    let tx = Arc::new(tx);
    let published = Arc::new(AtomicUsize::new(0));
    let mut handles = vec![];
    for p in 0..2u32 {
        let (tx, published) = (tx.clone(), published.clone());
        handles.push(thread::spawn(move || {
            gate(3);
            for i in 0..2 {
                if block_on(tx.publish(&(p * 10 + i))).is_ok() {
                    published.fetch_add(1, Ordering::SeqCst);
                    note((p * 10 + i) as u64);
                } else {
                    note((100 + p * 10 + i) as u64);
                }
            }
            if explicit_close && p == 0 {
                block_on(tx.close()).unwrap();
            }
        }));
    }
    drop(tx);
    let receiver = thread::spawn(move || {
        gate(3);
        block_on(async {
            let mut rx = Box::pin(rx);
            let (mut n, mut ackers) = (0, vec![]);
            while let Some(((x, _), acker)) = rx.next().await {
                n += 1;
                note(1000 + x as u64);
                if share_acks {
                    let a = Arc::new(acker);
                    let b = a.clone();
                    ackers.push(thread::spawn(move || {
                        block_on(Acker::nack(&b)).unwrap();
                    }));
                    Acker::ack(&a).await.unwrap();
                } else {
                    ackers.push(thread::spawn(move || {
                        note(2000 + x as u64);
                        block_on(Acker::ack(&acker)).unwrap();
                        note(3000 + x as u64);
                    }));
                }
            }
            note(4000);
            for a in ackers {
                a.join().unwrap();
            }
            n
        })
    });
    for h in handles {
        h.join().unwrap();
    }
    let n = receiver.join().unwrap();
    let published = published.load(Ordering::SeqCst);
    check!(n == published, "{published} published, {n} received");
}

/// The receiving end moves between threads while waiting.
fn coordinated_moves() {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let q = block_on(conn.declare_queue("q", options(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent))).unwrap();
    let consumer = block_on(q.declare_consumer::<u32>("c")).unwrap();
    let (tx, rx) = coordinated_channel(q.publisher::<u32>(), consumer);
    let mut rx = Box::pin(rx);
    let sender = thread::spawn(move || {
        gate(2);
        block_on(tx.publish(&1)).unwrap();
        note(1);
        drop(tx);
        note(2);
    });
    gate(2);
    let first = rx.next().now_or_never();
    note(if matches!(first, Some(Some(_))) { 5 } else { 6 });
    let rest = thread::spawn(move || {
        let mut n = 0;
        block_on(async {
            while let Some((_, acker)) = rx.next().await {
                note(3);
                thread::spawn(move || block_on(Acker::ack(&acker)).unwrap());
                n += 1;
            }
        });
        n
    });
    let mut n = 0;
    if let Some(Some((_, acker))) = first {
        n += 1;
        block_on(Acker::ack(&acker)).unwrap();
    }
    sender.join().unwrap();
    n += rest.join().unwrap();
    check!(n == 1, "{n} received");
}

// ---- leases, combinators, ackers --------------------------------------

fn lease() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let conn = InMemoryConnection::new(Serializer::Postcard);
        let f = QueueChannelFactory::new(conn.clone());
        let (_, channel) = f.issue(ChannelType::ExactlyOnce).await.unwrap();
        let sender = channel.sender::<u32>().await.unwrap();
        let receiver = channel.receiver::<u32>().await.unwrap();
        let mut lease = Box::pin(LeaseGuard::new(channel, receiver));
        let t = thread::spawn(move || {
            note(1);
            block_on(sender.publish(&5)).unwrap();
            note(2);
        });
        let x = lease.next().await.unwrap().0;
        check!(x == 5, "received {x}");
        note(3);
        drop(lease);
        tokio::task::yield_now().await;
        t.join().unwrap();
    });
}

struct Slow(u32);

impl Stream for Slow {
    type Item = anyhow::Result<u32>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0 += 1;
        match self.0 {
            x if x > 6 => Poll::Ready(None),
            x if x % 2 == 0 => {
                let w = cx.waker().clone();
                thread::spawn(move || w.wake());
                Poll::Pending
            }
            x => Poll::Ready(Some(Ok(x))),
        }
    }
}

fn combinators() {
    let conn = InMemoryConnection::new(Serializer::Cbor);
    let q = block_on(conn.declare_queue("q", QueueOptions::default())).unwrap();
    let p: Box<dyn Publisher<u32> + Send + Sync + Unpin> =
        Box::new(Pin::new(Box::new(q.publisher::<u64>().with(|x: &u32| {
            note(*x as u64);
            Ok(*x as u64 * 2)
        }))));
    let p = Arc::new(p);
    let other = p.clone();
    let t = thread::spawn(move || block_on(other.publish_all(Slow(0), 2)).unwrap());
    block_on(p.publish_all(Slow(0), None)).unwrap();
    t.join().unwrap();
    let mut c = block_on(q.declare_consumer::<u64>("c")).unwrap();
    let mut n = 0;
    while let Some(Some(_)) = c.next().now_or_never() {
        n += 1;
    }
    check!(n == 6, "{n} published");
    let a = Arc::new(ComposedAcker::new(Box::new(NoopAcker::new()) as Box<dyn Acker>, Arc::new(NoopAcker::new())));
    let b = a.clone();
    let t = thread::spawn(move || block_on(b.nack()).unwrap());
    block_on(a.ack()).unwrap();
    t.join().unwrap();
}

fn serializers() {
    let value = (vec![1u64, 2, u64::MAX], Some("text".to_string()), vec![vec![0u8; 20]]);
    let handles: Vec<_> = [Serializer::Postcard, Serializer::Cbor]
        .into_iter()
        .map(|s| {
            let value = value.clone();
            thread::spawn(move || {
                let bytes = s.to_bytes(&value).unwrap();
                let back: (Vec<u64>, Option<String>, Vec<Vec<u8>>) = s.from_bytes(&bytes).unwrap();
                check!(back == value, "{s}: not the same");
                for n in (0..bytes.len()).step_by(7) {
                    note(n as u64);
                    let r = s.from_bytes::<(Vec<u64>, Option<String>, Vec<Vec<u8>>)>(&bytes[..n]);
                    check!(r.is_err(), "{s}: prefix of {n} decoded");
                }
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
}

fn main() {
    let all: Vec<(&str, fn())> = vec![
        ("contiguous_offer", || contiguous_offer(7, 3)),
        ("contiguous_offer2", || contiguous_offer(8, 2)),
        ("contiguous_mixed", contiguous_mixed),
        ("exactly_once", || exactly_once(1, 3)),
        ("exactly_once_shared", || exactly_once(2, 1)),
        ("broadcast", broadcast),
        ("broadcast_history", broadcast_history),
        ("declare_delete", declare_delete),
        ("coordinated_close", || coordinated(true, false)),
        ("coordinated_drop", || coordinated(false, false)),
        ("coordinated_acks", || coordinated(false, true)),
        ("coordinated_moves", coordinated_moves),
        ("lease", lease),
        ("combinators", combinators),
        ("serializers", serializers),
    ];
    let arg = std::env::args().nth(1).unwrap_or_else(|| "list".into());
    if arg == "list" {
        for (n, _) in all {
            println!("{n}");
        }
        return;
    }
    let (name, f) = all.iter().find(|(n, _)| *n == arg).expect("no such scenario");
    f();
    let (n, print) = (ORDER.load(Ordering::SeqCst), PRINT.load(Ordering::SeqCst));
    println!("DONE {name} {n} {print:x}");
}
