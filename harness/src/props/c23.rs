//! C23: publisher combinators forward faithfully.
use std::{
    collections::HashMap,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::{StreamExt, TryStreamExt};
use paladin::queue::{Publisher, PublisherExt};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "compose: one case is a recording publisher (delays, failures) under 0 to 4 generated layers (functions, some \
               failing, boxes, pins) with publishes and closes, successive or concurrent; all: one case is publish_all of a \
               generated stream (pauses, errors) with a generated limit over such a publisher; the log of starts and ends is \
               checked. Distinct by the log",
        families: vec![
            Family { name: "compose", run: compose_virt, quick: 12_000, thorough: 25, threads: 6, secs: 20, min: 100 },
            Family { name: "compose-real", run: compose_real, quick: 1500, thorough: 25, threads: 3, secs: 20, min: 50 },
            Family { name: "all", run: all_virt, quick: 12_000, thorough: 25, threads: 6, secs: 20, min: 100 },
            Family { name: "all-real", run: all_real, quick: 1000, thorough: 25, threads: 3, secs: 20, min: 50 },
        ],
        assumptions: vec!["a limit of zero is not used", "calls are awaited to their end"],
        allowed_panics: vec![],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Event {
    Start(u64),
    Done(u64),
    Failed(u64),
    /// A publish that was not polled to its end.
    Dropped(u64),
    Close,
    /// A function in front failed.
    Fun(u64),
    /// The input stream gave an item, an error, or ended.
    Item(u64),
    StreamError,
}

#[derive(Default)]
struct State {
    log: Mutex<Vec<Event>>,
    in_flight: AtomicUsize,
    max: AtomicUsize,
    closes: AtomicU64,
}

impl State {
    fn add(&self, e: Event) {
        self.log.lock().unwrap().push(e);
    }
}

#[derive(Clone)]
struct Recorder {
    state: Arc<State>,
    seed: u64,
    pace: Pace,
    fail: u64,
    close_fails: u64,
}

impl Recorder {
    fn new(rng: &mut Rng) -> Self {
        Recorder {
            state: Default::default(),
            seed: rng.u64(),
            pace: *rng.pick(&[Pace::Burst, Pace::Yields, Pace::Timers, Pace::Timers]),
            fail: *rng.pick(&[0, 0, 0, 3, 30]),
            close_fails: *rng.pick(&[0, 0, 50]),
        }
    }
    fn fails(&self, x: u64) -> bool {
        mix(self.seed, x) % 100 < self.fail
    }
    fn close_fails(&self, k: u64) -> bool {
        mix(self.seed, mix(k, 3)) % 100 < self.close_fails
    }
}

struct InFlight<'a>(&'a Recorder, u64, bool);

impl Drop for InFlight<'_> {
    fn drop(&mut self) {
        self.0.state.in_flight.fetch_sub(1, Ordering::SeqCst);
        if !self.2 {
            self.0.state.add(Event::Dropped(self.1));
        }
    }
}

#[async_trait::async_trait]
impl Publisher<u64> for Recorder {
    async fn publish(&self, x: &u64) -> anyhow::Result<()> {
        let n = self.state.in_flight.fetch_add(1, Ordering::SeqCst) + 1;
        self.state.max.fetch_max(n, Ordering::SeqCst);
        self.state.add(Event::Start(*x));
        let mut g = InFlight(self, *x, false);
        pause(self.pace, mix(self.seed, mix(*x, 1)), 20).await;
        g.2 = true;
        if self.fails(*x) {
            self.state.add(Event::Failed(*x));
            anyhow::bail!("pv-publish-{x:x}-end");
        }
        self.state.add(Event::Done(*x));
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        self.state.add(Event::Close);
        let k = self.state.closes.fetch_add(1, Ordering::SeqCst);
        pause(self.pace, mix(self.seed, k), 20).await;
        if self.close_fails(k) {
            anyhow::bail!("pv-close-{k}-end");
        }
        Ok(())
    }
}

type Dyn = Box<dyn Publisher<u64> + Send + Sync + Unpin>;

#[derive(Clone, Copy)]
struct Fun {
    key: u64,
    fail: u64,
}

impl Fun {
    fn logged(&self, x: u64, st: &State) -> anyhow::Result<u64> {
        self.apply(x).map_err(|e| {
            st.add(Event::Fun(mix(x, self.key)));
            anyhow::anyhow!(e)
        })
    }
    fn apply(&self, x: u64) -> Result<u64, String> {
        let y = mix(x, self.key);
        if y % 100 < self.fail {
            Err(format!("pv-function-{y:x}-end"))
        } else {
            Ok(y)
        }
    }
}

/// Layers over the recorder, outermost function last.
fn layers(rng: &mut Rng, inner: Recorder, funs: &mut Vec<Fun>, shape: &mut String) -> Dyn {
    let mut p: Dyn = Box::new(inner.clone());
    let mut fun = |rng: &mut Rng| {
        let f = Fun { key: rng.u64(), fail: *rng.pick(&[0, 0, 10, 50]) };
        funs.push(f);
        f
    };
    for k in 0..rng.below(5) {
        match rng.below(5) {
            0 => {
                shape.push('b');
                p = Box::new(Box::new(p));
            }
            1 => {
                shape.push('p');
                let q: Pin<Dyn> = Pin::new(p);
                p = Box::new(q);
            }
            2 if k == 0 => {
                // Directly over the recorder, twice.
                shape.push_str("ff");
                let (f, g) = (fun(rng), fun(rng));
                let (s, t) = (inner.state.clone(), inner.state.clone());
                let w = inner
                    .clone()
                    .with(move |x: &u64| f.logged(*x, &s))
                    .with(move |x: &u64| g.logged(*x, &t));
                p = if rng.chance(50) { Box::new(w) } else { Box::new(Pin::new(Box::new(w))) };
            }
            _ => {
                shape.push('f');
                let f = fun(rng);
                let s = inner.state.clone();
                p = Box::new(p.with(move |x: &u64| f.logged(*x, &s)));
            }
        }
    }
    p
}

/// What publishing `x` through the functions should do.
fn image(funs: &[Fun], x: u64) -> Result<u64, String> {
    funs.iter().rev().try_fold(x, |x, f| f.apply(x))
}

fn compose_virt(seed: u64, _: &Ctx) -> Res {
    vt(compose(seed))
}
fn compose_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, compose(seed))
}

async fn compose(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let rec = Recorder::new(&mut rng);
    let (mut funs, mut shape) = (vec![], String::new());
    let p: Arc<Dyn> = Arc::new(layers(&mut rng, rec.clone(), &mut funs, &mut shape));
    let n = scaled(&mut rng, 1, 12, 3, 150);
    let concurrent = rng.chance(50);
    let calls: Vec<Option<u64>> = (0..n).map(|_| rng.chance(85).then(|| rng.u64())).collect();
    let mut closes = vec![];
    let mut published: Vec<(u64, anyhow::Result<()>)> = vec![];
    let do_call = |c: Option<u64>| {
        let p = p.clone();
        async move {
            match c {
                Some(x) => p.publish(&x).await,
                None => p.close().await,
            }
        }
    };
    let mut hs = vec![];
    for c in &calls {
        let out = if concurrent {
            hs.push((*c, tokio::spawn(do_call(*c))));
            continue;
        } else {
            within("a publish or close", do_call(*c)).await?
        };
        match c {
            Some(x) => published.push((*x, out)),
            None => closes.push(out),
        }
    }
    for (c, h) in hs {
        let out = within("a publish or close", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))?;
        match c {
            Some(x) => published.push((x, out)),
            None => closes.push(out),
        }
    }
    let log = rec.state.log.lock().unwrap().clone();
    let mut starts: HashMap<u64, u64> = HashMap::new();
    for e in &log {
        match e {
            Event::Start(x) => *starts.entry(*x).or_default() += 1,
            Event::Dropped(x) => return Err(format!("the publish of {x:x} was abandoned").into()),
            _ => {}
        }
    }
    let n_pub = published.len() as u64;
    let mut failed = 0;
    for (x, out) in published {
        let want = match image(&funs, x) {
            Err(e) => Some(e),
            Ok(y) => {
                let k = starts.remove(&y).unwrap_or(0);
                ensure!(k == 1, "publishing through {shape} published the image {k} times");
                rec.fails(y).then(|| format!("pv-publish-{y:x}-end"))
            }
        };
        match (&want, &out) {
            (None, Ok(())) => {}
            (Some(m), Err(e)) if format!("{e:#}").contains(m.as_str()) => failed += 1,
            _ => return Err(format!("publishing through {shape} gave {out:?} where {want:?} was expected").into()),
        }
    }
    if let Some(x) = starts.keys().next() {
        return Err(format!("publishing through {shape} published {x:x}, the image of no payload whose functions succeeded").into());
    }
    let k = log.iter().filter(|e| **e == Event::Close).count();
    ensure!(k == closes.len(), "{} closes through {shape} closed the publisher {k} times", closes.len());
    let want_failed = (0..k as u64).filter(|i| rec.close_fails(*i)).count();
    let got_failed = closes.iter().filter(|c| c.is_err()).count();
    ensure!(want_failed == got_failed, "{got_failed} closes through {shape} gave errors, {want_failed} of the publisher");
    for c in closes.iter().flat_map(|c| c.as_ref().err()) {
        ensure!(format!("{c:#}").contains("pv-close-"), "closing through {shape} gave error {c:#}");
    }
    Ok(Seen {
        sig: log_sig(&log),
        nontrivial: !shape.is_empty(),
        sample: Some(json!({"layers": shape, "publishes": n_pub, "failed": failed, "closes": closes.len(), "concurrent": concurrent})),
        counts: vec![("publishes", n_pub), ("failed", failed), ("closes", closes.len() as u64)],
    })
}

fn log_sig(log: &[Event]) -> u64 {
    log.iter().fold(log.len() as u64, |h, e| {
        let (k, x) = match e {
            Event::Start(x) => (0, *x),
            Event::Done(x) => (1, *x),
            Event::Failed(x) => (2, *x),
            Event::Dropped(x) => (3, *x),
            Event::Close => (4, 0),
            Event::Fun(x) => (7, *x),
            Event::Item(x) => (5, *x),
            Event::StreamError => (6, 0),
        };
        mix(h, mix(k, x))
    })
}

fn all_virt(seed: u64, _: &Ctx) -> Res {
    vt(all(seed))
}
fn all_real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, all(seed))
}

async fn all(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let rec = Recorder::new(&mut rng);
    let (mut funs, mut shape) = (vec![], String::new());
    let p: Dyn = if rng.chance(70) {
        Box::new(rec.clone())
    } else {
        layers(&mut rng, rec.clone(), &mut funs, &mut shape)
    };
    let n = if rng.chance(2) { rng.range(200, 3000) as usize } else { any_len(&mut rng, 150) };
    let items: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
    let error_at = rng.chance(25).then(|| rng.usize(n + 1));
    let limit: Option<usize> = match rng.below(4) {
        0 => None,
        1 => Some(1),
        2 => Some(scaled(&mut rng, 2, 8, 20, 300) as usize),
        _ => Some(rng.range(1, n as u64 + 2) as usize),
    };
    let mut xs: Vec<anyhow::Result<u64>> = items.iter().map(|x| Ok(*x)).collect();
    if let Some(e) = error_at {
        xs.insert(e, Err(anyhow::anyhow!("pv-stream-end")));
    }
    let indexed: Vec<anyhow::Result<(usize, u64)>> = xs.into_iter().enumerate().map(|(i, x)| x.map(|x| (i, x))).collect();
    let st = rec.state.clone();
    let pace = any_pace(&mut rng);
    let s = paced(indexed, pace, seed, 20)
        .map(move |x| {
            st.add(match &x {
                Ok((_, x)) => Event::Item(*x),
                Err(_) => Event::StreamError,
            });
            x
        })
        .map_ok(|(_, x)| x)
        .boxed();
    let what = format!("publish_all of {n} items (error at {error_at:?}, limit {limit:?})");
    let out = match limit {
        Some(k) if rng.chance(50) => within(&what, p.publish_all(s, k)).await?,
        _ => within(&what, p.publish_all(s, limit)).await?,
    };
    let log_at_return = rec.state.log.lock().unwrap().len();
    // Nothing may go on afterwards.
    for _ in 0..6 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
    let log = rec.state.log.lock().unwrap().clone();
    ensure!(log.len() == log_at_return, "{what}: publishing goes on after it returned");
    let max = rec.state.max.load(Ordering::SeqCst);
    if let Some(k) = limit {
        ensure!(max <= k, "{what}: {max} publishes were in flight");
    }
    // The first error, from the stream, the functions or the publisher.
    let mut starts: HashMap<u64, u64> = HashMap::new();
    let mut first: Option<(String, usize)> = None;
    for (i, e) in log.iter().enumerate() {
        match e {
            Event::Start(x) => {
                if let Some((m, at)) = &first {
                    return Err(format!("{what}: a publish was started after the first error ({m}, {} events before)", i - at).into());
                }
                *starts.entry(*x).or_default() += 1;
            }
            Event::Failed(x) if first.is_none() => first = Some((format!("pv-publish-{x:x}-end"), i)),
            Event::StreamError if first.is_none() => first = Some(("pv-stream-end".into(), i)),
            Event::Fun(y) if first.is_none() => first = Some((format!("pv-function-{y:x}-end"), i)),
            Event::Close => return Err(format!("{what} closed the publisher").into()),
            _ => {}
        }
    }
    if let Some((x, k)) = starts.iter().find(|(_, k)| **k > 1) {
        return Err(format!("{what}: {x:x} was published {k} times").into());
    }
    match &out {
        Ok(()) => {
            ensure!(first.is_none(), "{what} succeeded despite the error {first:?}");
            let mut done = 0;
            for x in &items {
                let y = image(&funs, *x)?;
                ensure!(log.contains(&Event::Done(y)), "{what} succeeded without item {x:x} having been published");
                done += 1;
            }
            ensure!(done == starts.len(), "{what} published {} items", starts.len());
            ensure!(error_at.is_none(), "{what} succeeded without having seen the end of the stream");
        }
        Err(e) => {
            let e = format!("{e:#}");
            match &first {
                Some((m, _)) => ensure!(e.contains(m.as_str()), "{what} gave {e}, not the first error {m}"),
                None => return Err(format!("{what} gave {e}, which did not occur").into()),
            }
        }
    }
    let failed = out.is_err() as u64;
    Ok(Seen {
        sig: log_sig(&log),
        nontrivial: n > 0,
        sample: Some(json!({"items": n, "stream_error_at": error_at, "limit": limit, "layers": shape, "max_in_flight": max, "failed": failed})),
        counts: vec![("items", starts.len() as u64), ("failed_calls", failed)],
    })
}
