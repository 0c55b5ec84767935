//! C06: fatal task failures surface to the caller with their message, and
//! workers stop.
use std::time::Duration;

use futures::StreamExt;
use paladin::directive::{Directive, IndexedStream, Literal};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger::{self, Delay},
    ops::{Act, Cat, Item, Seg, Step, Step2},
    rng::{mix, Rng},
    touchy::{BadOp, Join, Pass, Touchy, Unknown, Unknown0},
};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "one case is a computation (map, chain, fold, literal) in which one or more generated tasks fail fatally, \
               by a fatal error, panic, exhausted retries, undecodable operation or input, unencodable or undecodable \
               output, or unknown operation; it must end with an error carrying the message, and the workers must stop. \
               Every case is non-trivial; distinct by shape, cause, position and execution order",
        families: vec![
            Family { name: "failing-task", run: failing_task, quick: 900, thorough: 12, threads: 4, secs: 20, min: 20 },
            Family { name: "failing-task-real", run: failing_task_real, quick: 200, thorough: 12, threads: 2, secs: 15, min: 5 },
            Family { name: "amqp", run: over_broker, quick: 120, thorough: 15, threads: 4, secs: 20, min: 10 },
            Family { name: "codec", run: codec, quick: 600, thorough: 12, threads: 4, secs: 15, min: 20 },
            Family { name: "workers-stop", run: workers_stop, quick: 60, thorough: 12, threads: 4, secs: 20, min: 5 },
        ],
        assumptions: vec![
            "the caller stops consuming a result stream at its first error",
            "a worker may begin one more task before it observes the abort command",
        ],
        allowed_panics: vec![],
    }
}

fn failing_task(seed: u64, _: &Ctx) -> Res {
    vt(task_fails(seed, true))
}
fn failing_task_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, task_fails(seed, false))
}

/// A failure with the Terminate strategy, and text its error must contain.
fn any_failure(rng: &mut Rng) -> (Act, String, &'static str) {
    let msg = any_message(rng, "pv-fatal");
    match rng.below(6) {
        0 => (Act::Panic, "panicked".into(), "panic"),
        1 | 2 => {
            let retries = rng.range(1, 4) as u32;
            (
                Act::Transient {
                    fails: 1000,
                    retries,
                    after_ms: if rng.chance(50) { 0 } else { rng.range(1, 5) as u32 },
                    ignore: false,
                    msg: msg.clone(),
                    then: Box::new(Act::None),
                },
                // The error is that of the last attempt.
                format!("{msg} attempt {}", retries + 2),
                "retries exhausted",
            )
        }
        3 => (
            Act::Transient {
                fails: 1,
                retries: 3,
                after_ms: 0,
                ignore: rng.chance(50),
                msg: "transient".into(),
                then: Box::new(Act::Fatal { ignore: false, msg: msg.clone() }),
            },
            msg,
            "fatal while retrying",
        ),
        _ => (Act::Fatal { ignore: false, msg: msg.clone() }, msg, "fatal"),
    }
}

async fn task_fails(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 6);
    let ser = any_serializer(&mut rng);
    let rt = runtime(workers, ser).await?;
    let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
    let kind = rng.below(6);
    let name = (["map", "map+map", "map+map", "fold", "literal", "map then fold"])[kind as usize];
    let n = match kind {
        3 | 5 => scaled(&mut rng, 2, 60, 3, 600),
        4 => 1,
        _ => scaled(&mut rng, 1, 90, 3, 3000),
    } as usize;
    let bad = match rng.below(4) {
        0 => 0,
        1 => n - 1,
        _ => rng.usize(n),
    };
    let (act, want, cause) = any_failure(&mut rng);
    let pace = any_pace(&mut rng);
    let ms = if virt { 4000 } else { 2 };
    let what = format!("{name} of {n} elements in which task {bad} fails ({cause})");
    let act_stage = if kind == 2 { 1 } else { 0 };
    let xs: Vec<(usize, Item)> = (0..n)
        .map(|i| {
            (
                i,
                Item {
                    run: run.id,
                    idx: i as u64,
                    act: if i == bad { act.clone() } else { Act::None },
                    act_stage,
                    ..Default::default()
                },
            )
        })
        .collect();
    let segs: Vec<(usize, Seg)> = (0..n)
        .map(|i| {
            let mut s = Seg::one(run.id, i as u64);
            if i == bad {
                s.act = act.clone();
            }
            (i, s)
        })
        .collect();
    let (a, b, op, to) = (Step(1), Step2(2), Cat(run.id), crate::ops::ToSeg);
    let go = async {
        match kind {
            0 => collect(Directive::map(paced_ok(xs, pace, seed, ms), &a).run(&rt).await?).await,
            1 | 2 => {
                let d = Directive::map(Directive::map(paced_ok(xs, pace, seed, ms), &a), &b);
                collect(d.run(&rt).await?).await
            }
            3 => Directive::fold(paced_ok(segs, pace, seed, ms), &op).run(&rt).await.map(|s| s.items.len()),
            4 => Directive::map(Literal(xs[0].1.clone()), &a).run(&rt).await.map(|_| 1),
            _ => Directive::fold(Directive::map(paced_ok(xs, pace, seed, ms), &to), &op)
                .run(&rt)
                .await
                .map(|s| s.items.len()),
        }
    };
    match within(&what, go).await? {
        Ok(k) => return Err(format!("{what}: completed as if successful, with {k} elements").into()),
        Err(e) => {
            let msg = format!("{e:#}");
            ensure!(msg.contains(&want), "{what}: the error is {msg:?} and does not contain {want:?}");
        }
    }
    Ok(Seen {
        sig: mix(mix(n as u64, mix(bad as u64, kind)), run.order_sig()),
        nontrivial: true,
        sample: Some(json!({"shape": name, "cause": cause, "elements": n, "failing": bad, "workers": workers})),
        counts: vec![("fatal_failures_surfaced", 1), ("executions", run.count() as u64)],
    })
}

async fn collect<T>(mut out: IndexedStream<'_, T>) -> anyhow::Result<usize> {
    let mut got = 0;
    while let Some(x) = out.next().await {
        x?;
        got += 1;
    }
    Ok(got)
}

fn codec(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 5);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = rng.range(2, 50) as usize;
        let bad = rng.usize(n);
        let kind = rng.below(10);
        let name = ([
            "input not decodable", "output not encodable", "output not decodable", "operation not decodable",
            "operation unknown", "operation 0 unknown", "fold element not decodable", "combination not encodable",
            "combination not decodable", "literal of unknown operation",
        ])[kind as usize];
        // By a panic of the user's code for it?
        let boom = [0, 1, 3, 6, 7].contains(&kind) && rng.chance(35);
        let name = format!("{name}{}", if boom { ": panic" } else { "" });
        let what = format!("{name} (task {bad} of {n})");
        let pace = any_pace(&mut rng);
        let id = run.id;
        let none = u64::MAX;
        let ts = |de: bool| -> Vec<(usize, Touchy)> {
            (0..n).map(|i| (i, Touchy { de: de && i == bad, boom, ..Touchy::new(id, i as u64) })).collect()
        };
        let its = || -> Vec<(usize, Item)> { (0..n).map(|i| (i, Item { run: id, idx: i as u64, ..Default::default() })).collect() };
        let go = async {
            let ms = 4000;
            match kind {
                0 => collect(Directive::map(paced_ok(ts(true), pace, seed, ms), &Pass { bad: none, how: 0 }).run(&rt).await?).await,
                1 | 2 => {
                    let op = Pass { bad: bad as u64, how: if boom { 3 } else { kind as u8 } };
                    let out = Directive::map(paced_ok(ts(false), pace, seed, ms), &op).run(&rt).await?;
                    collect(out).await
                }
                3 => collect(Directive::map(paced_ok(its(), pace, seed, ms), &BadOp { ser: false, boom }).run(&rt).await?).await,
                4 => collect(Directive::map(paced_ok(its(), pace, seed, ms), &Unknown).run(&rt).await?).await,
                5 => collect(Directive::map(paced_ok(its(), pace, seed, ms), &Unknown0).run(&rt).await?).await,
                6 => Directive::fold(paced_ok(ts(true), pace, seed, ms), &Join { bad: none, how: 0 }).run(&rt).await.map(|x| x.items.len()),
                7 | 8 => {
                    // A combination whose right operand starts with the last element always happens.
                    let op = Join { bad: n as u64 - 1, how: if boom { 3 } else { kind as u8 - 6 } };
                    Directive::fold(paced_ok(ts(false), pace, seed, ms), &op).run(&rt).await.map(|x| x.items.len())
                }
                _ => Directive::map(Literal(Item::default()), &Unknown).run(&rt).await.map(|_| 1),
            }
        };
        if let Ok(k) = within(&what, go).await? {
            return Err(format!("{what}: completed as if successful, with {k} elements").into());
        }
        Ok(Seen {
            sig: mix(mix(n as u64, mix(bad as u64, kind)), run.order_sig()),
            nontrivial: true,
            sample: Some(json!({"cause": name, "elements": n, "failing": bad, "workers": workers})),
            counts: vec![("codec_failures_surfaced", 1)],
        })
    })
}

/// After a fatal failure the workers stop taking up tasks, those of other
/// computations included.
fn workers_stop(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 6);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let run = ledger::new_run(seed, Delay::Sleep(200));
        // A worker whose operations complete at once yields to its command handler only now and then
        // (at the latest when its cooperative budget of 128 is used up).
        let n = 400 * workers + rng.usize(100);
        let bad = rng.usize(2 * workers);
        let (mut act, want, cause) = any_failure(&mut rng);
        if let Act::Transient { after_ms, .. } = &mut act {
            // Virtual time stands still while the other tasks are executed.
            *after_ms = 0;
        }
        let xs: Vec<(usize, Item)> = (0..n)
            .map(|i| {
                let act = if i == bad { act.clone() } else { Act::None };
                (i, Item { run: run.id, idx: i as u64, act, ..Default::default() })
            })
            .collect();
        let what = format!("{n} tasks of which {bad} fails ({cause}), {workers} workers");
        // Tasks of another computation are queued behind those.
        let other = ledger::new_run(seed, Delay::None);
        let ys: Vec<(usize, Item)> = (0..n).map(|i| (i, Item { run: other.id, idx: i as u64, ..Default::default() })).collect();
        let (a, b) = (Step(1), Step2(1));
        let mut out1 = Directive::map(paced_ok(xs, Pace::Burst, 0, 1), &a).run(&rt).await?;
        let mut out2 = Directive::map(paced_ok(ys, Pace::Burst, 0, 1), &b).run(&rt).await?;
        let (e, _) = within(&what, async {
            let first = async {
                while let Some(x) = out1.next().await {
                    x?;
                }
                Ok::<_, anyhow::Error>(())
            };
            // The other computation publishes its tasks, and may or may not get results.
            let second = tokio::time::timeout(Duration::from_millis(1), async {
                while let Some(x) = out2.next().await {
                    x?;
                }
                Ok::<_, anyhow::Error>(())
            });
            tokio::join!(first, second)
        })
        .await?;
        match e {
            Ok(()) => return Err(format!("{what}: completed as if successful").into()),
            Err(e) => ensure!(format!("{e:#}").contains(&want), "{what}: the error is {e:#}"),
        }
        tokio::time::sleep(Duration::from_secs(30)).await;
        let soon = run.count() + other.count();
        ensure!(
            soon <= n / 2,
            "{what}: {soon} tasks were executed although the program was terminated early on"
        );
        // New tasks: each worker may take up one more.
        drop(out1);
        let later = ledger::new_run(seed, Delay::None);
        let zs: Vec<(usize, Item)> = (0..n).map(|i| (i, Item { run: later.id, idx: i as u64, ..Default::default() })).collect();
        let mut out3 = Directive::map(paced_ok(zs, Pace::Burst, 0, 1), &b).run(&rt).await?;
        _ = tokio::time::timeout(Duration::from_secs(200), async { while out3.next().await.is_some() {} }).await;
        let after = run.count() + other.count() + later.count() - soon;
        ensure!(
            after <= workers,
            "{what}: {after} tasks were executed long after the program was terminated"
        );
        Ok(Seen {
            sig: mix(mix(n as u64, bad as u64), run.order_sig()),
            nontrivial: true,
            sample: Some(json!({"tasks": n, "failing": bad, "cause": cause, "workers": workers, "executed": soon, "executed_later": after})),
            counts: vec![("tasks_not_taken_up", (2 * n).saturating_sub(soon) as u64)],
        })
    })
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, task_fails(seed, false))
}
