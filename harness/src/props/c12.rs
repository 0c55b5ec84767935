//! C12: a coordinated channel never ends before everything published was
//! processed.
use std::{sync::Arc, time::Duration};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    channel::coordinated_channel::{coordinated_channel, coordinated_stream::CoordinatedAcker},
    queue::Publisher,
};
use serde_json::json;

use super::coord::{any_gap, check_no_early_end, gap, history, push, Rx, Shared};
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "one case is the history (publish, push, close, drop, receive, acknowledge and end events) of a coordinated \
               channel with 1 to 4 publishers, failing and slow underlying publishers, a racing close or drop, a receiving \
               end that moves between tasks, and delayed, repeated, out-of-order acknowledgements; the end event must come \
               after every accepted item's receive and acknowledgement. Non-trivial if anything was published; distinct by \
               the history",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 12_000, thorough: 20, threads: 6, secs: 25, min: 100 },
            Family { name: "instructions", run: super::instr::c12, quick: 192, thorough: 3, threads: 5, secs: 15, min: 20 },
            Family { name: "real-time", run: real, quick: 3000, thorough: 15, threads: 3, secs: 30, min: 50 },
            Family { name: "lost-acker", run: lost, quick: 4000, thorough: 20, threads: 4, secs: 20, min: 100 },
        ],
        assumptions: vec!["publish calls are awaited to their end"],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let (log, seen) = history(seed, true).await?;
        check_no_early_end(&log)?;
        Ok(seen)
    })
}

fn real(seed: u64, _: &Ctx) -> Res {
    mt(2 + (seed % 4) as usize, async move {
        let (log, seen) = history(seed, false).await?;
        check_no_early_end(&log)?;
        Ok(seen)
    })
}

/// An item whose acker is lost (dropped, in whatever way) has not been
/// acknowledged.
fn lost(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let pipe = Shared::default();
        let n = rng.range(1, 8);
        let lose: Vec<u64> = (0..n).map(|_| if rng.chance(40) { rng.range(1, 4) } else { 0 }).collect();
        let tx = Sink(pipe.clone());
        let (publisher, stream) = coordinated_channel::<u64, u64, _, _>(tx, Rx::Pipe(pipe));
        let early = rng.chance(50);
        let mut r = rng.fork();
        let sender = tokio::spawn(async move {
            for i in 0..n {
                gap(any_gap(&mut r), true).await;
                publisher.publish(&i).await?;
            }
            if r.chance(50) {
                publisher.close().await?;
            }
            drop(publisher);
            Ok::<(), anyhow::Error>(())
        });
        if !early {
            within("publishing", sender).await?.map_err(|e| e.to_string())??;
        }
        let mut stream = Box::pin(stream);
        let mut held: Vec<CoordinatedAcker> = vec![];
        for k in 0..n {
            let (id, acker) = within("receiving", stream.next())
                .await?
                .ok_or_else(|| Bad::Violation(format!("the receiving end ended after {k} of {n} items")))?;
            match lose[id as usize] {
                0 if rng.chance(50) => acker.ack(),
                0 => held.push(acker),
                1 => drop(acker),
                2 => {
                    // With the task that has it.
                    let t = tokio::spawn(async move {
                        let _acker = acker;
                        futures::future::pending::<()>().await
                    });
                    gap(any_gap(&mut rng), true).await;
                    t.abort();
                    _ = t.await;
                }
                3 => {
                    // A call that is never polled has not happened.
                    let shared: Box<dyn Acker> = Box::new(acker);
                    drop(shared.ack());
                }
                _ => {
                    let shared = Arc::new(acker);
                    let other = shared.clone();
                    drop(shared);
                    gap(any_gap(&mut rng), true).await;
                    drop(other);
                }
            }
        }
        let gone = lose.iter().filter(|x| **x > 0).count();
        let wait = tokio::spawn(async move { (stream.next().await.map(|x| x.0), stream) });
        for a in held {
            gap(any_gap(&mut rng), true).await;
            a.nack();
        }
        let r = tokio::time::timeout(Duration::from_secs(200), wait).await;
        if gone == 0 {
            ensure!(matches!(r, Ok(Ok((None, _)))), "the receiving end did not end after all {n} items were acknowledged");
        } else {
            ensure!(
                r.is_err(),
                "the receiving end ended although {gone} of {n} items were neither acknowledged nor negatively acknowledged \
                 (their ackers were lost: {lose:?})"
            );
        }
        let sig = lose.iter().fold(n, |h, x| mix(h, *x));
        Ok(Seen {
            sig: mix(sig, early as u64),
            nontrivial: gone > 0,
            sample: Some(json!({"items": n, "lost": lose})),
            counts: vec![("items", n), ("ackers_lost", gone as u64)],
        })
    })
}

struct Sink(Shared);

#[async_trait::async_trait]
impl Publisher<u64> for Sink {
    async fn publish(&self, x: &u64) -> anyhow::Result<()> {
        push(&self.0, *x);
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
}
