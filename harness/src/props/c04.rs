//! C04: computations sharing a runtime do not affect each other's results.
use std::{collections::HashMap, sync::Arc};

use futures::{future::BoxFuture, FutureExt, StreamExt};
use paladin::{
    directive::{Directive, Literal},
    runtime::Runtime,
};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger,
    ops::{expected, Aff, Affine, Cat, Cat2, Item, Seg, Step, Step2, Step3, ToSeg},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "one case is a set of 2 to 40 generated computations (maps, folds, chains, literals; shared and different \
               operations), concurrent and consecutive, on one or two runtimes; every result is checked against the \
               computation alone and every execution against the run it belongs to; non-trivial if at least two \
               overlapped; distinct by the computations and the interleaving of their executions",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 120, thorough: 12, threads: 4, secs: 20, min: 5 },
            Family { name: "real-time", run: real, quick: 100, thorough: 12, threads: 2, secs: 25, min: 5 },
            Family { name: "amqp", run: over_broker, quick: 60, thorough: 15, threads: 4, secs: 25, min: 5 },
        ],
        assumptions: vec!["operations do not fail"],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, _: &Ctx) -> Res {
    vt(scenario(seed, true))
}
fn real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 6) as usize, scenario(seed, false))
}

/// Runs one generated computation, and checks its result. Gives its signature.
pub fn computation(seed: u64, rt: Arc<Runtime>, virt: bool, max: u64) -> BoxFuture<'static, Result<(u64, String), Bad>> {
    async move {
        let mut rng = Rng::new(seed);
        let ms = if virt { 3000 } else { 2 };
        let delay = ledger::random_delay(&mut rng);
        let run = ledger::new_run(seed, delay);
        let n = any_len(&mut rng, max);
        let kind = rng.below(8);
        let pace = any_pace(&mut rng);
        let k = rng.u64();
        let name = ["map", "map", "map+map", "map+map+map", "fold", "map+fold", "literal", "affine"][kind as usize];
        let what = format!("{name} of {n} elements (concurrent with others)");
        match kind {
            0..=3 => {
                let idx = any_indices(&mut rng, n);
                let input = items(&mut rng, run.id, &idx, false);
                let s = paced_ok(input.iter().map(|x| (x.idx as usize, x.clone())).collect(), pace, seed, ms);
                let (a, b, c) = (Step(k), Step2(k ^ 1), Step3(k ^ 2));
                let go = async {
                    let mut out = match kind {
                        0 => Directive::map(s, &a).run(&rt).await?,
                        1 => Directive::map(s, &b).run(&rt).await?,
                        2 => Directive::map(Directive::map(s, &a), &b).run(&rt).await?,
                        _ => Directive::map(Directive::map(Directive::map(s, &a), &b), &c).run(&rt).await?,
                    };
                    let mut got = vec![];
                    while let Some(x) = out.next().await {
                        got.push(x?);
                    }
                    Ok::<_, Bad>(got)
                };
                let got = within(&what, go).await??;
                let want: HashMap<usize, Item> = input
                    .iter()
                    .map(|x| {
                        let y = match kind {
                            0 => expected(1, a.0, x),
                            1 => expected(2, b.0, x),
                            2 => expected(2, b.0, &expected(1, a.0, x)),
                            _ => expected(3, c.0, &expected(2, b.0, &expected(1, a.0, x))),
                        };
                        (x.idx as usize, y)
                    })
                    .collect();
                check_outputs(&what, &got, &want)?;
                let stages = [1, 1, 2, 3][kind as usize];
                for st in 0..stages {
                    check_tally(&run, st, idx.iter().map(|i| *i as u64))?;
                }
                let op_of = |st: u32| if kind == 1 { 2 } else { st + 1 };
                for e in run.execs() {
                    ensure!(e.op == op_of(e.stage), "{what}: stage {} was executed by operation {}", e.stage, e.op);
                }
            }
            4 | 5 => {
                let mut idx: Vec<usize> = (0..n).collect();
                if rng.chance(40) {
                    rng.shuffle(&mut idx);
                }
                let (op, op2, to) = (Cat(run.id), Cat2(run.id), ToSeg);
                let got = if kind == 5 {
                    let input = items(&mut rng, run.id, &idx, false);
                    let s = paced_ok(input.into_iter().map(|x| (x.idx as usize, x)).collect(), pace, seed, ms);
                    within(&what, Directive::fold(Directive::map(s, &to), &op).run(&rt)).await??
                } else {
                    let s = paced_ok(idx.iter().map(|i| (*i, Seg::one(run.id, *i as u64))).collect(), pace, seed, ms);
                    if k % 2 == 0 {
                        within(&what, Directive::fold(s, &op).run(&rt)).await??
                    } else {
                        within(&what, Directive::fold(s, &op2).run(&rt)).await??
                    }
                };
                check_fold(&run, &got, n)?;
            }
            6 => {
                let x = items(&mut rng, run.id, &[n], true).remove(0);
                let (a, b) = (Step(k), Step3(k));
                let got = within(&what, Directive::map(Directive::map(Literal(x.clone()), &a), &b).run(&rt)).await??;
                ensure!(got.0 == expected(3, k, &expected(1, k, &x)), "{what}: wrong result {}", short(&got.0));
                check_tally(&run, 0, std::iter::once(n as u64))?;
                check_tally(&run, 1, std::iter::once(n as u64))?;
            }
            _ => {
                let xs: Vec<Aff> = (0..n).map(|_| Aff(rng.u64(), rng.u64())).collect();
                let want = xs.iter().fold(Aff(1, 0), |a, b| a.then(*b));
                let s = paced_ok(xs.into_iter().enumerate().collect(), pace, seed, ms);
                let got = within(&what, Directive::fold(s, &Affine).run(&rt)).await??;
                ensure!(got == want, "{what}: {got:?} instead of {want:?}");
            }
        }
        Ok((mix(mix(n as u64, kind), run.order_sig()), format!("{name}({n})")))
    }
    .boxed()
}

async fn scenario(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 8);
    let ser = any_serializer(&mut rng);
    let rts = [
        Arc::new(runtime(workers, ser).await?),
        Arc::new(runtime(2, ser).await?),
    ];
    let mut sig = 0;
    let mut names = vec![];
    let mut total = 0;
    let mut overlapped = 0;
    for _ in 0..rng.range(1, 3) {
        let k = match rng.below(6) {
            0 => scaled(&mut rng, 20, 40, 8, 300),
            1 => 1,
            _ => rng.range(2, 9),
        };
        let two = rng.chance(20);
        let max = if k > 10 { 12 } else { 60 };
        let tasks: Vec<_> = (0..k)
            .map(|i| {
                let c = computation(rng.u64(), rts[if two { i as usize % 2 } else { 0 }].clone(), virt, max);
                let stagger = rng.u64();
                tokio::spawn(async move {
                    pause(Pace::Timers, stagger, 3).await;
                    c.await
                })
            })
            .collect();
        for t in tasks {
            let (s, name) = t
                .await
                .map_err(|e| Bad::Inconclusive(format!("computation task: {e}")))??;
            sig = mix(sig, s);
            names.push(name);
        }
        total += k;
        if k > 1 {
            overlapped += k;
        }
    }
    names.truncate(12);
    Ok(Seen {
        sig,
        nontrivial: overlapped > 0,
        sample: Some(json!({"workers": workers, "computations": total, "first": names})),
        counts: vec![("computations", total), ("overlapping", overlapped)],
    })
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, scenario(seed, false))
}
