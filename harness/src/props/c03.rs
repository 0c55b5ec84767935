//! C03: directives make progress and finish whatever the timing of their input.
use std::{
    collections::BTreeSet,
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::StreamExt;
use paladin::directive::{Directive, IndexedStream};
use serde_json::json;
use tokio::sync::Notify;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger,
    ops::{Cat, Item, Seg, Step, Step2, ToSeg},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "one case is a run whose input elements are released only once the outputs or combinations that earlier \
               elements make possible have been observed, or whose end of input comes long after all work is done; \
               virtual time decides exactly whether a run can still make progress. Non-trivial if it has at least two \
               elements; distinct by length, arrival order, window and execution order",
        families: vec![
            Family { name: "map-causal", run: map_causal, quick: 400, thorough: 12, threads: 4, secs: 15, min: 10 },
            Family { name: "fold-causal", run: fold_causal, quick: 500, thorough: 12, threads: 4, secs: 20, min: 10 },
            Family { name: "late-end", run: late_end, quick: 500, thorough: 12, threads: 4, secs: 15, min: 10 },
            Family { name: "late-end-real", run: late_end_real, quick: 120, thorough: 12, threads: 2, secs: 15, min: 5 },
            Family { name: "amqp", run: over_broker, quick: 80, thorough: 15, threads: 4, secs: 20, min: 10 },
        ],
        assumptions: vec!["virtual time passes only when no task, timer or blocking operation can make progress"],
        allowed_panics: vec![],
    }
}

/// The next element is released once all but `window` of the outputs of the
/// previous ones have been consumed.
fn map_causal(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 6);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let n = scaled(&mut rng, 1, 40, 5, 700) as usize;
        let window = *rng.pick(&[1usize, 1, 1, 2, 3, 8, 100]);
        let delay = ledger::random_delay(&mut rng);
        let run = ledger::new_run(seed, delay);
        let idx = any_indices(&mut rng, n);
        let input = items(&mut rng, run.id, &idx, false);
        let chained = rng.chance(40);
        let sem = Arc::new(tokio::sync::Semaphore::new(window));
        let gate = sem.clone();
        let s = IndexedStream::new(futures::stream::unfold(input.into_iter(), move |mut it| {
            let gate = gate.clone();
            async move {
                let x = it.next()?;
                gate.acquire().await.unwrap().forget();
                Some((Ok((x.idx as usize, x)), it))
            }
        }));
        let (a, b) = (Step(1), Step2(2));
        let consume = async {
            let mut out = if chained {
                Directive::map(Directive::map(s, &a), &b).run(&rt).await?
            } else {
                Directive::map(s, &a).run(&rt).await?
            };
            let mut seen = BTreeSet::new();
            while let Some(x) = out.next().await {
                let (i, _) = x?;
                seen.insert(i);
                sem.add_permits(1);
            }
            Ok::<_, Bad>(seen)
        };
        let seen = within(
            &format!("a map (chained: {chained}) whose next input element is released after the outputs so far"),
            consume,
        )
        .await??;
        ensure!(seen.len() == n, "map ended with {} of {n} outputs", seen.len());
        Ok(Seen {
            sig: mix(mix(n as u64, window as u64), run.order_sig()),
            nontrivial: n >= 2,
            sample: Some(json!({"family": "each element released after earlier outputs", "elements": n, "window": window, "workers": workers, "chained": chained})),
            counts: vec![("elements_released_causally", n as u64)],
        })
    })
}

/// The number of combinations that a set of available elements makes possible.
fn possible(available: &BTreeSet<usize>) -> u64 {
    let runs = available
        .iter()
        .filter(|i| **i == 0 || !available.contains(&(**i - 1)))
        .count();
    (available.len() - runs) as u64
}

/// The next element is released once all combinations of adjacent available
/// elements have been made.
fn fold_causal(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 6);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let n = scaled(&mut rng, 2, 30, 5, 400) as usize;
        let delay = ledger::random_delay(&mut rng);
        let run = ledger::new_run(seed, delay);
        let mut idx: Vec<usize> = (0..n).collect();
        if rng.chance(60) {
            rng.shuffle(&mut idx);
        }
        let batch = *rng.pick(&[1usize, 1, 2, 3, 7]);
        let from_map = rng.chance(30);
        let avail = Arc::new(Mutex::new(BTreeSet::new()));
        let released = Arc::new(Notify::new());
        let (r, av) = (run.0.clone(), avail.clone());
        let combos = move |r: &ledger::Run| r.combinations_done();
        let progressed = released.clone();
        let s = futures::stream::unfold((idx.clone().into_iter(), 0usize), move |(mut it, k)| {
            let (r, av, progressed) = (r.clone(), av.clone(), progressed.clone());
            async move {
                if k % batch == 0 {
                    let want = possible(&av.lock().unwrap());
                    while combos(&r) < want {
                        r.notify.notified().await;
                    }
                }
                let i = it.next()?;
                av.lock().unwrap().insert(i);
                progressed.notify_one();
                Some((i, (it, k + 1)))
            }
        });
        let op = Cat(run.id);
        let id = run.id;
        let what = format!(
            "a fold (of a map: {from_map}) of {n} elements arriving as {:?}..., each batch of {batch} released after the combinations that were possible before",
            &idx[..n.min(12)]
        );
        let to = ToSeg;
        let got = if from_map {
            let s = IndexedStream::new(s.map(move |i| {
                Ok((i, Item { run: id, idx: i as u64, ..Default::default() }))
            }));
            within(&what, Directive::fold(Directive::map(s, &to), &op).run(&rt)).await
        } else {
            let s = IndexedStream::new(s.map(move |i| Ok((i, Seg::one(id, i as u64)))));
            within(&what, Directive::fold(s, &op).run(&rt)).await
        };
        let got = match got {
            Ok(x) => x?,
            Err(Bad::Violation(w)) => {
                return Err(Bad::Violation(format!(
                    "{w}: {} elements available, {} combinations made, {} possible",
                    avail.lock().unwrap().len(),
                    run.combinations_done(),
                    possible(&avail.lock().unwrap())
                )))
            }
            Err(e) => return Err(e),
        };
        check_fold(&run, &got, n)?;
        Ok(Seen {
            sig: mix(mix(n as u64, batch as u64), run.order_sig()),
            nontrivial: n >= 3,
            sample: Some(json!({"family": "each batch released after the possible combinations", "elements": n, "batch": batch, "arrival": &idx[..n.min(12)], "workers": workers, "of_map": from_map})),
            counts: vec![("elements_released_causally", n as u64)],
        })
    })
}

/// The end of the input, or its last elements, arrive long after everything
/// before is done.
fn late_end(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 6);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let n = any_len(&mut rng, 60);
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let mut idx: Vec<usize> = (0..n).collect();
        if rng.chance(40) {
            rng.shuffle(&mut idx);
        }
        // Long pauses at some places, and before the end.
        let pauses: Vec<bool> = (0..=n).map(|i| i == n || rng.chance(8)).collect();
        let s = futures::stream::unfold((idx.into_iter(), 0), move |(mut it, k)| {
            let p = pauses[k];
            async move {
                if p {
                    tokio::time::sleep(Duration::from_secs(50 + k as u64 % 7)).await;
                }
                Some((it.next()?, (it, k + 1)))
            }
        });
        let kind = rng.below(4);
        let (a, b, to, op) = (Step(1), Step2(2), ToSeg, Cat(run.id));
        let id = run.id;
        let s_items = move |s: futures::stream::BoxStream<'static, usize>| {
            IndexedStream::new(s.map(move |i| Ok((i, Item { run: id, idx: i as u64, ..Default::default() }))))
        };
        let s = s.boxed();
        match kind {
            0 => {
                let s = IndexedStream::new(s.map(move |i| Ok((i, Seg::one(id, i as u64)))));
                let got = within(&format!("a fold of {n} elements whose end comes late"), Directive::fold(s, &op).run(&rt)).await??;
                check_fold(&run, &got, n)?;
            }
            1 => {
                let d = Directive::fold(Directive::map(s_items(s), &to), &op);
                let got = within(&format!("a fold of a map of {n} elements whose end comes late"), d.run(&rt)).await??;
                check_fold(&run, &got, n)?;
            }
            2 => {
                let d = Directive::map(s_items(s), &a);
                let out = within(&format!("a map of {n} elements whose end comes late"), async {
                    d.run(&rt).await?.into_values_sorted().await
                })
                .await??;
                ensure!(out.into_iter().count() == n, "map lost outputs");
            }
            _ => {
                let d = Directive::map(Directive::map(s_items(s), &a), &b);
                let out = within(&format!("two maps of {n} elements whose end comes late"), async {
                    d.run(&rt).await?.into_values_sorted().await
                })
                .await??;
                ensure!(out.into_iter().count() == n, "map lost outputs");
            }
        }
        Ok(Seen {
            sig: mix(mix(n as u64, kind), run.order_sig()),
            nontrivial: true,
            sample: Some(json!({"family": "late end", "elements": n, "kind": (["fold", "map+fold", "map", "map+map"][kind as usize]), "workers": workers})),
            counts: vec![("late_ends", 1)],
        })
    })
}

/// In real time and in parallel: the end races with the last combination.
fn late_end_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 5) as usize, racing_end(seed))
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, racing_end(seed))
}

fn racing_end(seed: u64) -> impl std::future::Future<Output = Res> + Send {
    async move {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 6);
        let rt = runtime(workers, any_serializer(&mut rng)).await?;
        let mut sig = 0;
        let rounds = 12;
        for _ in 0..rounds {
            let n = rng.range(2, 7) as usize;
            let run = ledger::new_run(rng.u64(), *rng.pick(&[ledger::Delay::None, ledger::Delay::Jitter]));
            let spin = rng.below(60);
            let after = rng.chance(70);
            let r = run.0.clone();
            let id = run.id;
            let s = futures::stream::unfold(0, move |k| {
                let r = r.clone();
                async move {
                    if k == n {
                        // End at about the time when the last combination completes.
                        if after {
                            while r.combinations_done() < n as u64 - 1 {
                                tokio::task::yield_now().await;
                            }
                        }
                        for _ in 0..spin {
                            tokio::task::yield_now().await;
                        }
                        return None;
                    }
                    Some((Ok((k, Seg::one(id, k as u64))), k + 1))
                }
            });
            let op = Cat(id);
            let got = within(
                "a fold whose input ends when its last combination completes",
                Directive::fold(IndexedStream::new(s), &op).run(&rt),
            )
            .await??;
            check_fold(&run, &got, n)?;
            sig = mix(sig, mix(spin, run.order_sig()));
        }
        Ok(Seen {
            sig,
            nontrivial: true,
            sample: Some(json!({"family": "end racing with the last combination", "folds": rounds, "workers": workers})),
            counts: vec![("racing_ends", rounds)],
        })
    }
}
