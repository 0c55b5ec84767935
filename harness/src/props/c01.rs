//! C01: a map yields exactly one correct output per input element.
use std::collections::HashMap;

use futures::StreamExt;
use paladin::directive::{indexed_stream, Directive, IndexedStream};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger::{self, Delay},
    ops::{expected, Item, Step, Step2, Step3},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "one case is a run of 1 to 3 chained maps over a generated input (length, indices, payload sizes, \
               pace of input and of consumption, task delays, worker count, serializer); non-trivial if it has at \
               least two elements; distinct by input and by the order in which elements were executed and delivered",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 700, thorough: 12, threads: 4, secs: 25, min: 20 },
            Family { name: "real-time", run: real, quick: 350, thorough: 12, threads: 2, secs: 20, min: 10 },
            Family { name: "large", run: large, quick: 14, thorough: 10, threads: 4, secs: 40, min: 4 },
            Family { name: "amqp", run: over_broker, quick: 120, thorough: 15, threads: 4, secs: 20, min: 10 },
        ],
        assumptions: vec![
            "operations are deterministic functions of their input",
            "executions are recorded where operations run, in-process",
        ],
        allowed_panics: vec![],
    }
}

fn virt(seed: u64, ctx: &Ctx) -> Res {
    let max = if ctx.index % 40 == 7 { 1500 } else { 300 };
    vt(scenario(seed, true, max))
}

const LARGE: u64 = 4000;

/// Inputs of many thousands of elements.
fn large(seed: u64, ctx: &Ctx) -> Res {
    let max = *Rng::new(seed ^ 7).pick(&[9_000, 20_000, if ctx.index % 7 == 3 { 140_000 } else { 40_000 }]);
    if seed % 2 == 0 {
        vt(scenario(seed, true, max))
    } else {
        mt(1 + (seed / 2 % 4) as usize, scenario(seed, false, max))
    }
}

fn real(seed: u64, ctx: &Ctx) -> Res {
    let threads = 1 + (seed % 4) as usize;
    let max = if ctx.index % 40 == 7 { 1500 } else { 300 };
    mt(threads, scenario(seed, false, max))
}

async fn scenario(seed: u64, virt: bool, max: u64) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 8);
    let ser = any_serializer(&mut rng);
    let rt = runtime(workers, ser).await?;
    let n = if max > LARGE { rng.range(LARGE, max) as usize } else { any_len(&mut rng, max) };
    let delay = if n > 300 { Delay::Jitter } else { ledger::random_delay(&mut rng) };
    let run = ledger::new_run(seed, delay);
    let indices = any_indices(&mut rng, n);
    let padded = n < 4000 && rng.chance(40);
    let input = items(&mut rng, run.id, &indices, padded);
    let stages = *rng.pick(&[1u32, 1, 1, 2, 3]);
    let (k1, k2, k3) = (rng.u64(), rng.u64() >> 40, rng.below(3));
    let pace = any_pace(&mut rng);
    let consume = any_pace(&mut rng);
    let sorted = rng.chance(30);
    let by_iter = pace == Pace::Burst && indices.iter().enumerate().all(|(i, x)| i == *x) && rng.chance(70);
    let ms = if virt { 5000 } else { 3 };

    let want: HashMap<usize, Item> = input
        .iter()
        .map(|x| {
            let mut y = expected(1, k1, x);
            if stages > 1 {
                y = expected(2, k2, &y);
            }
            if stages > 2 {
                y = expected(3, k3, &y);
            }
            (x.idx as usize, y)
        })
        .collect();

    let stream: IndexedStream<'static, Item> = if by_iter {
        match rng.below(3) {
            0 => IndexedStream::from(input.clone()),
            1 => indexed_stream::from_into_iterator(input.clone()),
            _ => indexed_stream::try_from_into_iterator(input.clone().into_iter().map(Ok).collect::<Vec<_>>()),
        }
    } else {
        paced_ok(
            input.iter().map(|x| (x.idx as usize, x.clone())).collect(),
            pace,
            mix(seed, 1),
            ms,
        )
    };
    let (op1, op2, op3) = (Step(k1), Step2(k2), Step3(k3));
    let out: IndexedStream<'_, Item> = match stages {
        1 => Directive::map(stream, &op1).run(&rt).await?,
        2 => Directive::map(Directive::map(stream, &op1), &op2).run(&rt).await?,
        _ => {
            Directive::map(Directive::map(Directive::map(stream, &op1), &op2), &op3)
                .run(&rt)
                .await?
        }
    };
    let what = format!("map of {n} elements");
    let order;
    if sorted {
        let vals: Vec<Item> = within(&what, out.into_values_sorted()).await??.into_iter().collect();
        let mut sorted_idx = indices.clone();
        sorted_idx.sort();
        ensure!(vals.len() == n, "{what}: {} values collected", vals.len());
        let got: Vec<(usize, Item)> = vals.iter().map(|v| (v.idx as usize, v.clone())).collect();
        check_outputs(&what, &got, &want)?;
        ensure!(
            got.iter().map(|x| x.0).eq(sorted_idx.iter().copied()),
            "{what}: values are not in the order of the input's indices"
        );
        order = 0;
    } else {
        let consume_all = async {
            let mut out = out;
            let mut got = vec![];
            let mut i = 0;
            while let Some(x) = out.next().await {
                got.push(x?);
                i += 1;
                pause_among(n as u64, i, consume, mix(seed, i ^ 0xfeed), ms).await;
            }
            Ok::<_, Bad>(got)
        };
        let got = within(&what, consume_all).await??;
        for (i, x) in &got {
            ensure!(*i as u64 == x.idx, "{what}: element {} came with index {i}", x.idx);
        }
        check_outputs(&what, &got, &want)?;
        order = got.iter().fold(1, |h, x| mix(h, x.0 as u64));
    }
    for stage in 0..stages {
        check_tally(&run, stage, indices.iter().map(|i| *i as u64))?;
    }
    Ok(Seen {
        sig: mix(mix(n as u64, order), run.order_sig()),
        nontrivial: n >= 2,
        sample: Some(json!({
            "workers": workers, "serializer": format!("{ser:?}"), "elements": n, "stages": stages,
            "input_pace": format!("{pace:?}"), "consumer_pace": format!("{consume:?}"),
            "task_delay": format!("{delay:?}"), "padded": padded, "first_indices": &indices[..n.min(8)],
        })),
        counts: vec![
            ("elements", n as u64),
            ("operation_executions", run.count() as u64),
            ("out_of_order_deliveries", (!sorted && order != indices.iter().fold(1, |h, x| mix(h, *x as u64))) as u64),
        ],
    })
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, scenario(seed, false, 120))
}
