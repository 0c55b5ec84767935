//! C07: an ignored failure affects nothing but the failing task.
use std::{
    collections::{HashMap, HashSet},
    sync::Arc,
    time::Duration,
};

use futures::StreamExt;
use paladin::directive::{Directive, IndexedStream};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger::{self},
    ops::{expected, Act, Cat, Item, Seg, Step, Step2},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "one case is a map or fold in which generated tasks fail and are ignored (fatally, or after exhausting \
               retries), next to other computations, followed by a computation that needs every worker at once; all other \
               tasks must deliver. Every case is non-trivial; distinct by the failing set and execution order",
        families: vec![
            Family { name: "map", run: map_virt, quick: 500, thorough: 12, threads: 4, secs: 20, min: 10 },
            Family { name: "map-real", run: map_real, quick: 150, thorough: 12, threads: 2, secs: 20, min: 5 },
            Family { name: "amqp", run: over_broker, quick: 100, thorough: 15, threads: 4, secs: 20, min: 10 },
            Family { name: "fold", run: fold, quick: 200, thorough: 12, threads: 4, secs: 15, min: 10 },
        ],
        assumptions: vec!["the computation of an ignored task does not itself end (its result never comes), so outputs are counted"],
        allowed_panics: vec![],
    }
}

fn ignored(rng: &mut Rng) -> Act {
    let msg = any_message(rng, "pv-ignored");
    match rng.below(3) {
        0 => Act::Transient {
            fails: 1000,
            retries: rng.range(1, 3) as u32,
            after_ms: rng.below(3) as u32,
            ignore: true,
            msg,
            then: Box::new(Act::None),
        },
        1 => Act::Transient {
            fails: 1,
            retries: 3,
            after_ms: 0,
            // The strategy of the fatal error counts.
            ignore: rng.chance(50),
            msg: msg.clone(),
            then: Box::new(Act::Fatal { ignore: true, msg }),
        },
        _ => Act::Fatal { ignore: true, msg },
    }
}

/// All `workers` workers can execute a task at the same time.
pub async fn all_workers_serve(rt: &paladin::runtime::Runtime, workers: usize, seed: u64) -> Result<(), Bad> {
    let run = ledger::new_run(seed, ledger::Delay::None);
    let n = workers * 2 + 1;
    let xs: Vec<(usize, Item)> = (0..n)
        .map(|i| {
            // The first ones wait for each other.
            let act = if i < workers { Act::Gate } else { Act::None };
            (i, Item { run: run.id, idx: i as u64, act, ..Default::default() })
        })
        .collect();
    let op = Step(77);
    let mut out = Directive::map(IndexedStream::new(futures::stream::iter(xs.into_iter().map(Ok))), &op)
        .run(rt)
        .await?;
    let consume = async {
        let mut k = 0;
        while let Some(x) = out.next().await {
            x?;
            k += 1;
        }
        Ok::<_, anyhow::Error>(k)
    };
    let open = async {
        while run.waiting() < workers {
            run.notify.notified().await;
        }
        run.open_gate();
    };
    let (k, ()) = within("a computation that needs every worker", async { tokio::join!(consume, open) }).await?;
    let k = k?;
    ensure!(k == n, "a computation after that gave {k} of {n} outputs");
    Ok(())
}

fn map_virt(seed: u64, _: &Ctx) -> Res {
    vt(map(seed, true))
}
fn map_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, map(seed, false))
}

async fn map(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 6);
    let ser = any_serializer(&mut rng);
    let rt = Arc::new(runtime(workers, ser).await?);
    let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
    let n = scaled(&mut rng, 2, 70, 4, 1500) as usize;
    let percent = *rng.pick(&[3, 10, 40, 90]);
    let mut failing: HashSet<usize> = (0..n).filter(|_| rng.chance(percent)).collect();
    failing.insert(match rng.below(3) {
        0 => 0,
        1 => n - 1,
        _ => rng.usize(n),
    });
    let xs: Vec<Item> = (0..n)
        .map(|i| Item {
            run: run.id,
            idx: i as u64,
            act: if failing.contains(&i) { ignored(&mut rng) } else { Act::None },
            ..Default::default()
        })
        .collect();
    let what = format!("a map of {n} elements of which {} fail and are ignored", failing.len());
    let pace = any_pace(&mut rng);
    let want: HashMap<usize, Item> = xs
        .iter()
        .filter(|x| !failing.contains(&(x.idx as usize)))
        .map(|x| (x.idx as usize, expected(1, 5, x)))
        .collect();
    let other = {
        let c = super::c04::computation(rng.u64(), rt.clone(), virt, 30);
        tokio::spawn(c)
    };
    let op = Step(5);
    let ms = if virt { 2000 } else { 2 };
    let mut out = Directive::map(paced_ok(xs.into_iter().map(|x| (x.idx as usize, x)).collect(), pace, seed, ms), &op)
        .run(&rt)
        .await?;
    let m = want.len();
    let got = within(&what, async {
        let mut got = vec![];
        while got.len() < m {
            match out.next().await {
                Some(Ok(x)) => got.push(x),
                Some(Err(e)) => return Err(Bad::Violation(format!("{what}: an error was reported: {e:#}"))),
                None => break,
            }
        }
        Ok(got)
    })
    .await??;
    check_outputs(&what, &got, &want)?;
    if virt {
        // Nothing else comes, in particular no error.
        match tokio::time::timeout(Duration::from_secs(100), out.next()).await {
            Ok(Some(Ok((i, _)))) => return Err(format!("{what}: an additional output {i}").into()),
            Ok(Some(Err(e))) => return Err(format!("{what}: an error was reported: {e:#}").into()),
            Ok(None) | Err(_) => {}
        }
        for i in 0..n as u64 {
            ensure!(run.tally(0).contains_key(&i), "{what}: element {i} was never executed");
        }
    }
    within("a concurrent computation", other)
        .await?
        .map_err(|e| Bad::Inconclusive(format!("{e}")))??;
    if rng.chance(50) {
        drop(out);
    }
    all_workers_serve(&rt, workers, seed).await?;
    super::c04::computation(rng.u64(), rt.clone(), virt, 30).await?;
    let mut f: Vec<_> = failing.into_iter().collect();
    f.sort();
    Ok(Seen {
        sig: mix(f.iter().fold(n as u64, |h, x| mix(h, *x as u64)), run.order_sig()),
        nontrivial: true,
        sample: Some(json!({"elements": n, "ignored": &f[..f.len().min(10)], "workers": workers})),
        counts: vec![("ignored_failures", f.len() as u64), ("outputs_of_other_tasks", m as u64)],
    })
}

/// A fold with an ignored combination can't give a result: no error is
/// reported, and others are unaffected.
fn fold(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 6);
        let ser = any_serializer(&mut rng);
        let rt = Arc::new(runtime(workers, ser).await?);
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = rng.range(2, 40) as usize;
        let bad = rng.usize(n);
        let act = ignored(&mut rng);
        let xs: Vec<(usize, Seg)> = (0..n)
            .map(|i| {
                let mut s = Seg::one(run.id, i as u64);
                if i == bad {
                    s.act = act.clone();
                }
                (i, s)
            })
            .collect();
        let op = Cat(run.id);
        let other = tokio::spawn(super::c04::computation(rng.u64(), rt.clone(), true, 30));
        let d = Directive::fold(paced_ok(xs, Pace::Burst, seed, 1), &op);
        match tokio::time::timeout(Duration::from_secs(500), d.run(&rt)).await {
            Ok(Ok(s)) => return Err(format!("a fold with an ignored combination gave {} elements", s.items.len()).into()),
            Ok(Err(e)) => return Err(format!("a fold with an ignored combination reported {e:#}").into()),
            Err(_) => {}
        }
        if let Some(p) = run.first_problem() {
            return Err(p.into());
        }
        within("a concurrent computation", other)
            .await?
            .map_err(|e| Bad::Inconclusive(format!("{e}")))??;
        let op2 = Step2(1);
        let _ = &op2;
        all_workers_serve(&rt, workers, seed).await?;
        Ok(Seen {
            sig: mix(mix(n as u64, bad as u64), run.order_sig()),
            nontrivial: true,
            sample: Some(json!({"fold_of": n, "failing_element": bad, "workers": workers})),
            counts: vec![("ignored_failures", 1)],
        })
    })
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, map(seed, false))
}
