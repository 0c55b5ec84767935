//! C28: directives are lazy and compose.
use std::{
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use futures::{future::BoxFuture, StreamExt};
use paladin::{
    directive::{
        indexed_stream::{from_into_iterator, try_from_into_iterator},
        Directive, IndexedStream, Literal,
    },
    runtime::Runtime,
};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, over_amqp, runtime, vt, within},
    ledger::{self, Run},
    ops::{expected, Aff, Affine, Cat, Item, Shift, Step, Step2, Step3, ToAff, ToNum, ToSeg},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        level: "exploration",
        rule: "one case is a generated chain of 0 to 8 maps with generated arguments over a literal or an indexed stream \
               (from an iterator, a fallible iterator or a paced stream; the types of short chains are static, of long ones \
               erased), optionally ended by one of three folds; the input must be untouched and nothing executed before it \
               runs, and the result must be that of sequential evaluation. Distinct by the chain and execution order",
        families: vec![
            Family { name: "chains", run: chains_virt, quick: 900, thorough: 20, threads: 5, secs: 25, min: 20 },
            Family { name: "chains-real", run: chains_real, quick: 200, thorough: 20, threads: 2, secs: 25, min: 10 },
            Family { name: "amqp", run: over_broker, quick: 100, thorough: 15, threads: 4, secs: 20, min: 10 },
        ],
        assumptions: vec!["a fold's input has indices from 0 without gaps"],
        allowed_panics: vec![],
    }
}

/// A directive whose type is erased.
struct Erased<T>(Box<dyn for<'r> FnOnce(&'r Runtime) -> BoxFuture<'r, anyhow::Result<T>> + Send>);

impl<T: Send + 'static> Erased<T> {
    fn new<D: Directive<Output = T> + Send + 'static>(d: D) -> Self {
        Erased(Box::new(move |rt| d.run(rt)))
    }
}

#[async_trait::async_trait]
impl<T: Send + 'static> Directive for Erased<T> {
    type Input = T;
    type Output = T;
    async fn run(self, rt: &Runtime) -> anyhow::Result<T> {
        (self.0)(rt).await
    }
}

#[derive(Clone, Copy, Debug)]
struct Link {
    op: u32,
    k: u64,
}

fn links(rng: &mut Rng, n: u64) -> Vec<Link> {
    (0..n)
        .map(|_| Link { op: rng.range(1, 3) as u32, k: if rng.chance(20) { 0 } else { rng.u64() } })
        .collect()
}

fn sequential(links: &[Link], x: &Item) -> Item {
    links.iter().fold(x.clone(), |x, l| expected(l.op, l.k, &x))
}

/// The ops must outlive the directive.
fn keep<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

macro_rules! chain {
    ($name:ident, $f:ident, $($lt:tt)?) => {
        fn $name(d: Erased<$f<$($lt,)? Item>>, links: &[Link]) -> Erased<$f<$($lt,)? Item>> {
            let mut d = d;
            let mut i = 0;
            while i < links.len() {
                let l = links[i];
                let next = links.get(i + 1).filter(|_| l.k % 3 > 0);
                d = match (l.op, next) {
                    // Two at a time, with their types.
                    (1, Some(m)) if m.op == 1 => Erased::new(Directive::map(Directive::map(d, keep(Step(l.k))), keep(Step(m.k)))),
                    (1, Some(m)) if m.op == 2 => Erased::new(Directive::map(Directive::map(d, keep(Step(l.k))), keep(Step2(m.k)))),
                    (2, Some(m)) if m.op == 1 => Erased::new(Directive::map(Directive::map(d, keep(Step2(l.k))), keep(Step(m.k)))),
                    (3, Some(m)) if m.op == 2 => Erased::new(Directive::map(Directive::map(d, keep(Step3(l.k))), keep(Step2(m.k)))),
                    (1, _) => {
                        i += 1;
                        d = Erased::new(Directive::map(d, keep(Step(l.k))));
                        continue;
                    }
                    (2, _) => {
                        i += 1;
                        d = Erased::new(Directive::map(d, keep(Step2(l.k))));
                        continue;
                    }
                    _ => {
                        i += 1;
                        d = Erased::new(Directive::map(d, keep(Step3(l.k))));
                        continue;
                    }
                };
                i += 2;
            }
            d
        }
    };
}
chain!(stream_chain, IndexedStream, 'static);
chain!(literal_chain, Literal,);

struct Touched(Arc<AtomicU64>);

/// An iterator that notices being used.
struct Noticed<I>(I, Arc<AtomicU64>);

impl<I: Iterator> Iterator for Noticed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1.fetch_add(1, Ordering::SeqCst);
        self.0.next()
    }
}

async fn untouched(what: &str, touched: &Touched, run: &Run) -> Result<(), Bad> {
    for _ in 0..10 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(3)).await;
    let t = touched.0.load(Ordering::SeqCst);
    ensure!(t == 0, "{what}: its input was consumed before it ran");
    ensure!(run.count() == 0, "{what}: operations were executed before it ran");
    Ok(())
}

fn chains_virt(seed: u64, _: &Ctx) -> Res {
    vt(chain(seed, true))
}
fn chains_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, chain(seed, false))
}

async fn chain(seed: u64, virt: bool) -> Res {
    let mut rng = Rng::new(seed);
    let workers = any_workers(&mut rng, 6);
    let rt = runtime(workers, any_serializer(&mut rng)).await?;
    let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
    let len = match rng.below(6) {
        0 => 0,
        1 => scaled(&mut rng, 5, 8, 12, 40),
        _ => rng.range(1, 4),
    };
    let links = links(&mut rng, len);
    let touched = Touched(Default::default());
    let ops: Vec<u32> = links.iter().map(|l| l.op).collect();
    if rng.chance(20) {
        let x = items(&mut rng, run.id, &[3], true).remove(0);
        let what = format!("the chain {ops:?} over a literal");
        let d = literal_chain(Erased::new(Literal(x.clone())), &links);
        untouched(&what, &touched, &run).await?;
        let got = within(&what, d.run(&rt)).await??;
        let want = sequential(&links, &x);
        ensure!(got.0 == want, "{what} gave {} instead of {}", short(&got.0), short(&want));
        for st in 0..len as u32 {
            check_tally(&run, st, std::iter::once(3))?;
        }
        return Ok(Seen {
            sig: mix(seed, len),
            nontrivial: len > 0,
            sample: Some(json!({"literal": true, "chain": ops})),
            counts: vec![("operations", len)],
        });
    }
    let end = rng.below(5);
    let n = any_len(&mut rng, if len > 4 { 40 } else { 120 });
    let source = rng.below(4);
    let idx: Vec<usize> = if end > 1 || source < 3 {
        let mut v: Vec<usize> = (0..n).collect();
        if source == 3 && rng.chance(60) {
            rng.shuffle(&mut v);
        }
        v
    } else {
        any_indices(&mut rng, n)
    };
    let xs = items(&mut rng, run.id, &idx, false);
    let pace = any_pace(&mut rng);
    let t = touched.0.clone();
    let s: IndexedStream<'static, Item> = match source {
        0 => IndexedStream::from(Noticed(xs.clone().into_iter(), t)),
        1 => from_into_iterator(Noticed(xs.clone().into_iter(), t)),
        2 => try_from_into_iterator(Noticed(xs.clone().into_iter().map(Ok), t)),
        _ => {
            let inner = paced(
                xs.iter().map(|x| Ok((x.idx as usize, x.clone()))).collect(),
                pace,
                seed,
                if virt { 2000 } else { 2 },
            )
            .boxed();
            IndexedStream::new(Counted { inner, polls: t })
        }
    };
    let source = ["From", "from_into_iterator", "try_from_into_iterator", "stream"][source as usize];
    let fold = ["none", "none", "Cat", "Affine", "Shift"][end as usize];
    let what = format!("the chain {ops:?} with fold {fold} over {n} elements ({source})");
    let d = stream_chain(Erased::new(s), &links);
    let want: Vec<(usize, Item)> = xs.iter().map(|x| (x.idx as usize, sequential(&links, x))).collect();
    let mut sorted = want.clone();
    sorted.sort_by_key(|x| x.0);
    let late = rng.chance(30);
    match end {
        0 | 1 => {
            untouched(&what, &touched, &run).await?;
            if end == 0 {
                let got = within(&what, async {
                    let mut out = d.run(&rt).await?;
                    if late {
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    let mut v = vec![];
                    while let Some(x) = out.next().await {
                        v.push(x?);
                    }
                    Ok::<_, Bad>(v)
                })
                .await??;
                check_outputs(&what, &got, &want.into_iter().collect())?;
            } else {
                let got: Vec<Item> = within(&what, async { d.run(&rt).await?.into_values_sorted().await })
                    .await??
                    .into_iter()
                    .collect();
                let want: Vec<Item> = sorted.into_iter().map(|x| x.1).collect();
                ensure!(got.len() == want.len(), "{what} gave {} values", got.len());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    ensure!(g == w, "{what}: value {i} in order is {} instead of {}", short(g), short(w));
                }
            }
        }
        2 => {
            let m = Cat(run.id);
            let d = Directive::fold(Directive::map(d, keep(ToSeg)), keep(m));
            untouched(&what, &touched, &run).await?;
            let got = within(&what, d.run(&rt)).await??;
            check_fold(&run, &got, n)?;
        }
        3 => {
            let k = rng.u64();
            let d = Directive::fold(Directive::map(d, keep(ToAff(k))), keep(Affine));
            untouched(&what, &touched, &run).await?;
            let got = within(&what, d.run(&rt)).await??;
            let want = sorted.iter().fold(Aff(1, 0), |a, x| a.then(ToAff(k).of(&x.1)));
            ensure!(got == want, "{what} gave {got:?} instead of {want:?}");
        }
        _ => {
            let (k, shift) = (rng.u64(), rng.u64());
            let d = Directive::fold(Directive::map(d, keep(ToNum(k))), keep(Shift(shift)));
            untouched(&what, &touched, &run).await?;
            let got = within(&what, d.run(&rt)).await??;
            let want = sorted
                .iter()
                .map(|x| ToNum(k).of(&x.1))
                .reduce(|a, b| Shift::add(shift, a, b))
                .unwrap_or(0u64.wrapping_sub(shift));
            ensure!(got == want, "{what} gave {got:x} instead of {want:x}");
        }
    }
    for st in 0..len as u32 {
        check_tally(&run, st, xs.iter().map(|x| x.idx))?;
    }
    for e in run.execs() {
        if let (None, Some(l)) = (e.ranges, links.get(e.stage as usize)) {
            ensure!(e.op == l.op, "{what}: stage {} was executed by operation {}", e.stage, e.op);
        }
    }
    Ok(Seen {
        sig: mix(mix(n as u64, len), run.order_sig()),
        nontrivial: n > 0,
        sample: Some(json!({"source": source, "chain": ops, "fold": fold, "elements": n, "workers": workers})),
        counts: vec![("operations", run.count() as u64)],
    })
}

fn over_broker(seed: u64, _: &Ctx) -> Res {
    over_amqp(seed, chain(seed, false))
}
