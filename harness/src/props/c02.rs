//! C02: a fold combines all elements once, in input order.
use paladin::directive::{Directive, IndexedStream};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger::{self, Delay},
    ops::{Aff, Affine, Cat, Item, Seg, ToSeg},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "one case is a fold of a free monoid (so that order and multiplicity show) over a generated input \
               (length, arrival order of indices, pace, combination delays, worker count, serializer), some over the \
               unordered output of a map; non-trivial if it has at least three elements; distinct by length and by \
               the tree of combinations that was executed, in order",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 900, thorough: 12, threads: 4, secs: 25, min: 20 },
            Family { name: "real-time", run: real, quick: 500, thorough: 12, threads: 2, secs: 25, min: 10 },
            Family { name: "amqp", run: over_broker, quick: 150, thorough: 15, threads: 4, secs: 20, min: 10 },
            Family { name: "affine", run: affine, quick: 60, thorough: 12, threads: 2, secs: 15, min: 3 },
            Family { name: "stragglers", run: stragglers, quick: 400, thorough: 12, threads: 4, secs: 20, min: 20 },
        ],
        assumptions: vec!["the monoid is associative", "indices run from 0 without gaps"],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, ctx: &Ctx) -> Res {
    vt(scenario(seed, true, if ctx.index % 50 == 9 { 900 } else { 260 }))
}

fn real(seed: u64, ctx: &Ctx) -> Res {
    mt(
        1 + (seed % 6) as usize,
        scenario(seed, false, if ctx.index % 50 == 9 { 900 } else { 260 }),
    )
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, scenario(seed, false, 80))
}

async fn scenario(seed: u64, virt: bool, max: u64) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 8);
    let ser = any_serializer(&mut rng);
    let rt = runtime(workers, ser).await?;
    let n = any_len(&mut rng, max);
    let delay = if n > 300 { Delay::Jitter } else { ledger::random_delay(&mut rng) };
    let run = ledger::new_run(seed, delay);
    let mut idx: Vec<usize> = (0..n).collect();
    let arrival = rng.below(5);
    match arrival {
        0 | 1 => {}
        2 => idx.reverse(),
        3 => rng.shuffle(&mut idx),
        _ => {
            // Even ones first: nothing to combine until late.
            idx.sort_by_key(|i| (i % 2, *i));
        }
    }
    let pace = any_pace(&mut rng);
    let ms = if virt { 5000 } else { 2 };
    let from_map = rng.chance(25);
    let padded = rng.chance(20);
    let what = format!("fold of {n} elements");
    let op = Cat(run.id);
    let got: Seg = if from_map {
        let input: Vec<(usize, Item)> = idx
            .iter()
            .zip(items(&mut rng, run.id, &idx, padded))
            .map(|(i, x)| (*i, x))
            .collect();
        let s = paced_ok(input, pace, seed, ms);
        let to = ToSeg;
        within(&what, Directive::fold(Directive::map(s, &to), &op).run(&rt)).await??
    } else {
        let input: Vec<(usize, Seg)> = idx
            .iter()
            .map(|i| {
                let mut s = Seg::one(run.id, *i as u64);
                if padded {
                    s.pad = pad(&mut rng);
                    s.pad.truncate(3000);
                }
                (*i, s)
            })
            .collect();
        let s: IndexedStream<'static, Seg> = if arrival < 2 && pace == Pace::Burst {
            input.into_iter().map(|x| x.1).collect::<Vec<_>>().into()
        } else {
            paced_ok(input, pace, seed, ms)
        };
        within(&what, Directive::fold(s, &op).run(&rt)).await??
    };
    check_fold(&run, &got, n)?;
    if from_map {
        check_tally(&run, 0, 0..n as u64)?;
    }
    Ok(Seen {
        sig: mix(n as u64, run.order_sig()),
        nontrivial: n >= 3,
        sample: Some(json!({
            "workers": workers, "serializer": format!("{ser:?}"), "elements": n,
            "arrival": arrival, "pace": format!("{pace:?}"), "delay": format!("{delay:?}"), "of_map": from_map,
            "first_combinations": run.execs().iter().filter_map(|e| e.ranges).take(6).map(|r| format!("{r:?}")).collect::<Vec<_>>(),
        })),
        counts: vec![
            ("elements", n as u64),
            ("combinations", run.execs().iter().filter(|e| e.ranges.is_some()).count() as u64),
        ],
    })
}

/// Larger inputs with a small payload.
fn affine(seed: u64, ctx: &Ctx) -> Res {
    let thorough = ctx.thorough;
    mt(4, async move {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 8);
        let rt = runtime(workers, any_serializer(&mut rng)).await?;
        let n = match rng.below(if thorough { 5 } else { 12 }) {
            0 => rng.range(20_000, 140_000),
            _ => rng.range(0, if thorough { 6000 } else { 2500 }),
        } as usize;
        let xs: Vec<Aff> = (0..n).map(|_| Aff(rng.u64() | 1, rng.u64())).collect();
        let want = xs.iter().fold(Aff(1, 0), |a, b| a.then(*b));
        let mut input: Vec<(usize, Aff)> = xs.into_iter().enumerate().collect();
        if rng.chance(50) {
            rng.shuffle(&mut input);
        }
        let pace = *rng.pick(&[Pace::Burst, Pace::Yields]);
        let s = paced_ok(input, pace, seed, 1);
        let got = within("fold", Directive::fold(s, &Affine).run(&rt)).await??;
        ensure!(got == want, "fold of {n} affine functions gave {got:?} instead of {want:?}");
        Ok(Seen {
            sig: mix(n as u64, want.1),
            nontrivial: n >= 3,
            sample: Some(json!({"workers": workers, "elements": n, "monoid": "affine"})),
            counts: vec![("elements", n as u64)],
        })
    })
}

/// Some elements, and the end, arrive long after everything before is combined.
fn stragglers(seed: u64, _: &Ctx) -> Res {
    vt(async move {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 8);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let n = any_len(&mut rng, 1030).max(2);
        let run = ledger::new_run(seed, if n > 100 { Delay::Jitter } else { ledger::random_delay(&mut rng) });
        let mut idx: Vec<usize> = (0..n).collect();
        match rng.below(3) {
            0 => rng.shuffle(&mut idx),
            1 => idx.reverse(),
            _ => {}
        }
        // Those that are late, preferably at boundaries.
        let late: Vec<usize> = (0..rng.range(1, 4))
            .map(|_| match rng.below(4) {
                0 => n - 1,
                1 => (1usize << rng.below(11)).min(n - 1),
                _ => rng.below(n as u64) as usize,
            })
            .collect();
        idx.sort_by_key(|i| late.contains(i));
        let from = idx.iter().position(|i| late.contains(i)).unwrap();
        let (id, end_late) = (run.id, rng.chance(40));
        let s = futures::stream::unfold(0, move |k| {
            let idx = idx.clone();
            async move {
                if k >= from && (k < idx.len() || end_late) {
                    tokio::time::sleep(std::time::Duration::from_secs(400)).await;
                }
                idx.get(k).map(|i| (Ok((*i, Seg::one(id, *i as u64))), k + 1))
            }
        });
        let op = Cat(id);
        let what = format!("fold of {n} elements, {late:?} of which are late");
        let got = within(&what, Directive::fold(IndexedStream::new(s), &op).run(&rt)).await??;
        check_fold(&run, &got, n)?;
        Ok(Seen {
            sig: mix(mix(n as u64, from as u64), run.order_sig()),
            nontrivial: true,
            sample: Some(json!({"workers": workers, "elements": n, "late": late, "late_end": end_late})),
            counts: vec![("elements", n as u64), ("late_elements", late.len() as u64)],
        })
    })
}
