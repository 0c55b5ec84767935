//! C05: errors of the input stream or of dispatch surface.
use std::collections::HashSet;

use futures::StreamExt;
use paladin::directive::{indexed_stream, Directive, IndexedStream, Literal};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger,
    ops::{expected, Cat, Item, Seg, Step, Step2, ToSeg},
    rng::{mix, Rng},
    touchy::{BadOp, Join, Pass, Touchy},
};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "one case is a map, chain or fold whose input yields an error at a generated position, or with an element \
               or operation that cannot be encoded for dispatch; it must end with that error (virtual time decides that \
               it cannot hang). Every case is non-trivial; distinct by shape, position and execution order",
        families: vec![
            Family { name: "input-error", run: input_error, quick: 1500, thorough: 12, threads: 4, secs: 20, min: 20 },
            Family { name: "dispatch-error", run: dispatch_error, quick: 800, thorough: 12, threads: 4, secs: 15, min: 20 },
            Family { name: "input-error-real", run: input_error_real, quick: 250, thorough: 12, threads: 2, secs: 15, min: 5 },
            Family { name: "amqp", run: over_broker, quick: 150, thorough: 15, threads: 4, secs: 20, min: 10 },
        ],
        assumptions: vec!["the caller stops consuming a result stream at its first error"],
        allowed_panics: vec![],
    }
}

fn input_error(seed: u64, _: &Ctx) -> Res {
    vt(input(seed, true))
}
fn input_error_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, input(seed, false))
}

/// An error of one of several types, with the message in its chain.
fn error(rng: &mut Rng, msg: &str) -> anyhow::Error {
    let msg = msg.to_string();
    match rng.below(6) {
        0 => std::io::Error::new(std::io::ErrorKind::UnexpectedEof, msg).into(),
        1 => std::io::Error::new(std::io::ErrorKind::WouldBlock, msg).into(),
        2 => anyhow::Error::msg(msg).context("context"),
        3 => anyhow::Error::msg("cause").context(msg),
        4 => paladin::operation::OperationError::from(paladin::operation::FatalError::from_str(
            &msg,
            crate::ops::strategy(rng.chance(50)),
        ))
        .into(),
        _ => anyhow::Error::msg(msg),
    }
}

/// An input whose elements are `make(i)`, with an error at position `at`.
fn failing<T: Send + 'static>(
    rng: &mut Rng,
    n: usize,
    at: usize,
    msg: &str,
    idx: &[usize],
    virt: bool,
    make: impl Fn(usize) -> T,
) -> IndexedStream<'static, T> {
    let mut xs: Vec<anyhow::Result<(usize, T)>> = vec![];
    for (k, i) in idx.iter().enumerate() {
        if k == at {
            xs.push(Err(error(rng, msg)));
        }
        xs.push(Ok((*i, make(*i))));
    }
    if at == n {
        xs.push(Err(error(rng, msg)));
    }
    if rng.chance(30) && idx.iter().enumerate().all(|(a, b)| a == *b) {
        return indexed_stream::try_from_into_iterator(xs.into_iter().map(|x| x.map(|x| x.1)).collect::<Vec<_>>());
    }
    let pace = any_pace(rng);
    IndexedStream::new(paced(xs, pace, rng.u64(), if virt { 20_000 } else { 3 }))
}

async fn input(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 5);
    let ser = any_serializer(&mut rng);
    let rt = runtime(workers, ser).await?;
    let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
    let n = if rng.chance(2) { rng.range(300, 6000) as usize } else { any_len(&mut rng, 80) };
    let at = match rng.below(4) {
        0 => 0,
        1 => n,
        _ => rng.range(0, n as u64) as usize,
    };
    let msg = any_message(&mut rng, "pv-input-error");
    let mut idx: Vec<usize> = (0..n).collect();
    if rng.chance(30) {
        rng.shuffle(&mut idx);
    }
    let kind = rng.below(6);
    let id = run.id;
    let item = move |i: usize| Item { run: id, idx: i as u64, val: i as u64, ..Default::default() };
    let (a, b, to, op) = (Step(3), Step2(4), ToSeg, Cat(run.id));
    let name = (["map", "map+map", "map sorted", "fold", "map+fold", "map+map+fold"])[kind as usize];
    let what = format!("{name} with an input error at position {at} of {n}");
    let err: anyhow::Error = match kind {
        0 | 1 => {
            let s = failing(&mut rng, n, at, &msg, &idx, virt, item);
            let go = async {
                let mut out = if kind == 0 {
                    Directive::map(s, &a).run(&rt).await?
                } else {
                    Directive::map(Directive::map(s, &a), &b).run(&rt).await?
                };
                let mut got = HashSet::new();
                loop {
                    match out.next().await {
                        Some(Ok((i, x))) => {
                            let mut w = expected(1, 3, &item(i));
                            if kind == 1 {
                                w = expected(2, 4, &w);
                            }
                            ensure!(got.insert(i), "{what}: output {i} delivered twice");
                            ensure!(x == w, "{what}: wrong output {}", short(&x));
                        }
                        Some(Err(e)) => return Ok::<_, Bad>(e),
                        None => {
                            return Err(Bad::Violation(format!(
                                "{what}: ended as if successful, with {} outputs",
                                got.len()
                            )))
                        }
                    }
                }
            };
            within(&what, go).await??
        }
        2 => {
            let s = failing(&mut rng, n, at, &msg, &idx, virt, item);
            let out = Directive::map(s, &a).run(&rt).await?;
            match within(&what, out.into_values_sorted()).await? {
                Ok(v) => return Err(Bad::Violation(format!("{what}: collected {} values", v.into_iter().count()))),
                Err(e) => e,
            }
        }
        _ => {
            let r = if kind == 3 {
                let s = failing(&mut rng, n, at, &msg, &idx, virt, |i| Seg::one(id, i as u64));
                within(&what, Directive::fold(s, &op).run(&rt)).await?
            } else if kind == 4 {
                let s = failing(&mut rng, n, at, &msg, &idx, virt, item);
                within(&what, Directive::fold(Directive::map(s, &to), &op).run(&rt)).await?
            } else {
                let s = failing(&mut rng, n, at, &msg, &idx, virt, item);
                within(&what, Directive::fold(Directive::map(Directive::map(s, &a), &to), &op).run(&rt)).await?
            };
            match r {
                Ok(v) => return Err(Bad::Violation(format!("{what}: gave a result of {} elements", v.items.len()))),
                Err(e) => e,
            }
        }
    };
    ensure!(
        format!("{err:#}").contains(&msg),
        "{what}: ended with another error than {msg:.300?}: {:.300}",
        format!("{err:#}")
    );
    Ok(Seen {
        sig: mix(mix(n as u64, mix(at as u64, kind)), run.order_sig()),
        nontrivial: true,
        sample: Some(json!({"shape": name, "elements": n, "error_at": at, "workers": workers, "error": msg.chars().take(60).collect::<String>()})),
        counts: vec![("input_errors_surfaced", 1), ("executions", run.count() as u64)],
    })
}

fn dispatch_error(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let workers = any_workers(&mut rng, 5);
        let ser = any_serializer(&mut rng);
        let rt = runtime(workers, ser).await?;
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = scaled(&mut rng, 1, 60, 2, 3000) as usize;
        let bad = match rng.below(4) {
            0 => 0,
            1 => n - 1,
            _ => rng.usize(n),
        };
        let kind = rng.below(6);
        let pace = any_pace(&mut rng);
        let id = run.id;
        let xs = move || -> Vec<(usize, Touchy)> {
            (0..n)
                .map(|i| (i, Touchy { ser: i == bad, ..Touchy::new(id, i as u64) }))
                .collect()
        };
        let name = (["map", "map+map", "fold", "literal", "operation", "operation of literal"])[kind as usize];
        let what = format!("{name} of {n} elements with an element ({bad}) or operation that cannot be encoded");
        let (p, q, j, o) = (
            Pass { bad: u64::MAX, how: 0 },
            Pass { bad: u64::MAX, how: 0 },
            Join { bad: u64::MAX, how: 0 },
            BadOp { ser: true, boom: false },
        );
        let surfaced = match kind {
            0 => {
                let out = Directive::map(paced_ok(xs(), pace, seed, 9000), &p).run(&rt).await?;
                let r = within(&what, collect(out)).await?;
                r.is_err()
            }
            1 => {
                let d = Directive::map(Directive::map(paced_ok(xs(), pace, seed, 9000), &p), &q);
                let r = within(&what, async { collect(d.run(&rt).await?).await }).await?;
                r.is_err()
            }
            2 => {
                if n < 2 {
                    return Ok(Seen::default());
                }
                within(&what, Directive::fold(paced_ok(xs(), pace, seed, 9000), &j).run(&rt)).await?.is_err()
            }
            3 => {
                let x = Touchy { ser: true, ..Touchy::new(id, 0) };
                within(&what, Directive::map(Literal(x), &p).run(&rt)).await?.is_err()
            }
            4 => {
                let input: Vec<(usize, Item)> = (0..n).map(|i| (i, Item { run: id, ..Default::default() })).collect();
                let out = Directive::map(paced_ok(input, pace, seed, 9000), &o).run(&rt).await?;
                within(&what, out.into_values_sorted()).await?.is_err()
            }
            _ => within(&what, Directive::map(Literal(Item::default()), &o).run(&rt)).await?.is_err(),
        };
        ensure!(surfaced, "{what}: no error surfaced");
        ensure!(
            !run.tally(0).contains_key(&(bad as u64)) || kind == 2 || kind > 2,
            "{what}: the element that cannot be encoded was executed"
        );
        Ok(Seen {
            sig: mix(mix(n as u64, mix(bad as u64, kind)), run.order_sig()),
            nontrivial: true,
            sample: Some(json!({"shape": name, "elements": n, "unencodable": bad, "workers": workers})),
            counts: vec![("dispatch_errors_surfaced", 1)],
        })
    })
}

async fn collect(mut out: IndexedStream<'_, Touchy>) -> anyhow::Result<usize> {
    let mut got = 0;
    while let Some(x) = out.next().await {
        x?;
        got += 1;
    }
    Ok(got)
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, input(seed, false))
}
