//! C30: abandoned computations do not disturb later ones.
use std::{sync::Arc, time::Duration};

use futures::{FutureExt, StreamExt};
use paladin::{
    acker::Acker,
    directive::{Directive, IndexedStream, Literal},
    runtime::Runtime,
    task::Task,
};
use serde_json::json;

use super::{c04::computation, c07::all_workers_serve, common::*};
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger::{self, Run, RunGuard},
    ops::{Act, Cat, Item, Seg, Step, Step2, ToSeg},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        level: "exploration",
        rule: "one case abandons 1 to 12 generated computations (maps, chains, folds, literals, plain task channels) at \
               generated points: never polled, after a number of polls, after a time, after a number of outputs, with \
               operations queued, waiting at a gate, or running; others run meanwhile and after, every result of which must \
               be right, and a last one needs every worker at once. Distinct by what was abandoned and execution order",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 500, thorough: 20, threads: 5, secs: 25, min: 20 },
            Family { name: "real-time", run: real, quick: 200, thorough: 20, threads: 2, secs: 25, min: 10 },
            Family { name: "amqp", run: over_broker, quick: 80, thorough: 15, threads: 4, secs: 25, min: 10 },
        ],
        assumptions: vec!["operations do not fail; operations of abandoned computations end eventually"],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, _: &Ctx) -> Res {
    vt(scenario(seed, true))
}
fn real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 5) as usize, scenario(seed, false))
}

/// A moment of real time.
async fn breath(us: u64) {
    _ = tokio::task::spawn_blocking(move || std::thread::sleep(Duration::from_micros(us))).await;
}

async fn between(gates: bool, h: u64) {
    if gates {
        if h % 3 == 0 {
            breath((h >> 8) % 1000).await;
        }
    } else {
        pause(Pace::Timers, h, 3).await;
    }
}

/// Waits for the point at which a computation is abandoned.
/// While operations wait at gates, virtual time stands still.
async fn until(mut rng: Rng, run: Arc<Run>, virt: bool, gates: bool) -> &'static str {
    match rng.below(5) {
        0 => "at once",
        1 => {
            for _ in 0..rng.range(1, 30) {
                tokio::task::yield_now().await;
            }
            "after polls"
        }
        2 => {
            if gates {
                breath(rng.range(1, 2000)).await;
            } else {
                tokio::time::sleep(Duration::from_millis(rng.range(1, if virt { 4000 } else { 3 }))).await;
            }
            "after a time"
        }
        3 => {
            // An operation is running, or has run.
            for _ in 0..200 {
                if run.count() > 0 {
                    break;
                }
                tokio::task::yield_now().await;
            }
            "when operations run"
        }
        _ => {
            for _ in 0..60 {
                if run.done.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                    break;
                }
                breath(100).await;
            }
            "when an operation is done"
        }
    }
}

/// Starts a computation and abandons it. Gives the run, for its operations to
/// be released.
async fn abandon(seed: u64, rt: Arc<Runtime>, virt: bool, gates: bool) -> Result<(RunGuard, String), Bad> {
    let mut rng = Rng::new(seed);
    let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
    let n = any_len(&mut rng, 40).max(1);
    let pace = any_pace(&mut rng);
    let ms = if virt { 3000 } else { 2 };
    let mut xs: Vec<(usize, Item)> = items(&mut rng, run.id, &(0..n).collect::<Vec<_>>(), true)
        .into_iter()
        .map(|x| (x.idx as usize, x))
        .collect();
    for (_, x) in &mut xs {
        x.act = if gates && rng.chance(60) { Act::Gate } else { Act::None };
    }
    let kind = rng.below(8);
    let name = ["map", "map", "map+map", "fold", "fold", "map+fold", "literal", "channel"][kind as usize];
    let (a, b, to, op) = (Step(1), Step2(2), ToSeg, Cat(run.id));
    let segs = |xs: Vec<(usize, Item)>| -> IndexedStream<'static, Seg> {
        let v = xs
            .into_iter()
            .map(|(i, x)| {
                let mut s = Seg::one(x.run, i as u64);
                s.act = x.act;
                (i, s)
            })
            .collect();
        paced_ok(v, pace, seed, ms)
    };
    let stop = until(Rng::new(seed ^ 5), run.0.clone(), virt, gates);
    let when;
    macro_rules! race {
        ($f:expr) => {{
            let f = $f;
            if rng.chance(8) {
                drop(f);
                when = "never polled";
            } else {
                tokio::pin!(f);
                tokio::select! {
                    biased;
                    r = f.as_mut() => { r?; when = "completed"; }
                    s = stop => { when = s; }
                }
            }
        }};
    }
    match kind {
        0..=2 => {
            let outputs = rng.usize(n + 1);
            let s = paced_ok(xs, pace, seed, ms);
            let f = async {
                let mut out = if kind < 2 {
                    Directive::map(s, &a).run(&rt).await?
                } else {
                    Directive::map(Directive::map(s, &a), &b).run(&rt).await?
                };
                for _ in 0..outputs {
                    match out.next().await {
                        Some(x) => {
                            x?;
                        }
                        None => break,
                    }
                }
                Ok::<(), Bad>(())
            };
            race!(f)
        }
        3 | 4 => race!(Directive::fold(segs(xs), &op).run(&rt).map(|x| x.map(drop))),
        5 => {
            let s = paced_ok(xs, pace, seed, ms);
            race!(Directive::fold(Directive::map(s, &to), &op).run(&rt).map(|x| x.map(drop)))
        }
        6 => {
            let x = xs.remove(0).1;
            race!(Directive::map(Literal(x), &a).run(&rt).map(|x| x.map(drop)))
        }
        _ => {
            let take = rng.usize(n + 1);
            let close = rng.chance(50);
            let drop_sender = rng.chance(50);
            let ack = rng.chance(70);
            let f = async {
                let (id, sender, mut receiver) = rt.lease_coordinated_task_channel::<Step, u64>().await?;
                for (i, x) in xs {
                    sender
                        .publish(&Task { routing_key: id.clone(), metadata: i as u64, op: &a, input: x })
                        .await?;
                }
                if close {
                    sender.close().await?;
                }
                if drop_sender {
                    drop(sender);
                }
                for _ in 0..take {
                    let Some((x, acker)) = receiver.next().await else { break };
                    x?;
                    if ack {
                        acker.ack().await?;
                    }
                }
                Ok::<(), Bad>(())
            };
            race!(f)
        }
    }
    Ok((run, format!("{name}({n}) {when}")))
}

async fn scenario(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 6);
    let rt = Arc::new(runtime(workers, any_serializer(&mut rng)).await?);
    let mut sig = workers as u64;
    let mut names = vec![];
    let mut completed = 0u64;
    let n = scaled(&mut rng, 1, 12, 4, 80);
    let gates = rng.chance(40);
    // Others, concurrent to them.
    let others: Vec<_> = (0..rng.below(4))
        .map(|_| tokio::spawn(computation(rng.u64(), rt.clone(), virt, 30)))
        .collect();
    let mut held = vec![];
    let mut hs = vec![];
    for _ in 0..n {
        let (s, rt2) = (rng.u64(), rt.clone());
        let h = tokio::spawn(async move { abandon(s, rt2, virt, gates).await });
        hs.push((h, rng.chance(50)));
        if rng.chance(50) {
            between(gates, rng.u64()).await;
        }
    }
    for (h, hold) in hs {
        let (run, name) = within("abandoning a computation", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        if name.ends_with("completed") {
            completed += 1;
        }
        names.push(name);
        sig = mix(sig, run.order_sig());
        if hold {
            // Its operations keep the workers busy for a while.
            held.push(run);
        }
    }
    let after: Vec<_> = (0..rng.range(1, 4))
        .map(|_| tokio::spawn(computation(rng.u64(), rt.clone(), virt, 30)))
        .collect();
    between(gates, rng.u64()).await;
    drop(held);
    let k = (others.len() + after.len()) as u64;
    for h in others.into_iter().chain(after) {
        let (s, _) = within("a computation next to abandoned ones", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        sig = mix(sig, s);
    }
    all_workers_serve(&rt, workers, seed).await?;
    let (s, _) = computation(rng.u64(), rt.clone(), virt, 60).await?;
    sig = mix(sig, s);
    names.truncate(8);
    Ok(Seen {
        sig,
        nontrivial: n > completed,
        sample: Some(json!({"workers": workers, "abandoned": n - completed, "first": names})),
        counts: vec![("abandoned", n - completed), ("computations_checked", k + 2)],
    })
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, scenario(seed, false))
}
