//! C24: acknowledgement composition respects order and outcome.
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::future::BoxFuture;
use paladin::acker::{Acker, ComposedAcker, NoopAcker};
use serde_json::json;

use super::common::*;
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{mt, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "one case is a generated composition (1 to 16 leaves, any nesting of composed, boxed, shared and no-op ackers) \
               of recording ackers with delays and failures, and 1 to 8 successive or concurrent ack and nack calls; the log \
               of each call must be the leaves in order up to the first failure, each started after the one before it \
               succeeded, of the call's kind, and the outcome the first error. Distinct by the log",
        families: vec![
            Family { name: "virtual-time", run: virt, quick: 20_000, thorough: 25, threads: 6, secs: 20, min: 100 },
            Family { name: "real-time", run: real, quick: 3000, thorough: 25, threads: 3, secs: 20, min: 50 },
        ],
        assumptions: vec!["calls are awaited to their end"],
        allowed_panics: vec![],
    }
}

tokio::task_local!(static CALL: u64);

#[derive(Clone, Debug, PartialEq)]
struct Event {
    call: u64,
    leaf: u64,
    nack: bool,
    /// 0: started, 1: succeeded, 2: failed.
    what: u8,
}

type Log = Arc<Mutex<Vec<Event>>>;

struct Leaf {
    id: u64,
    seed: u64,
    pace: Pace,
    /// Percentage of calls that fail.
    fail: u64,
    log: Log,
}

impl Leaf {
    fn fails(&self, call: u64, nack: bool) -> bool {
        mix(self.seed, mix(call, nack as u64)) % 100 < self.fail
    }
    async fn call(&self, nack: bool) -> anyhow::Result<()> {
        let call = CALL.with(|c| *c);
        let add = |what| self.log.lock().unwrap().push(Event { call, leaf: self.id, nack, what });
        add(0);
        pause(self.pace, mix(self.seed, call), 5).await;
        if self.fails(call, nack) {
            add(2);
            anyhow::bail!("pv-acker-{}-{call}-{nack}", self.id);
        }
        add(1);
        Ok(())
    }
}

struct Shared(Arc<Leaf>);

#[async_trait::async_trait]
impl Acker for Shared {
    async fn ack(&self) -> anyhow::Result<()> {
        self.0.call(false).await
    }
    async fn nack(&self) -> anyhow::Result<()> {
        self.0.call(true).await
    }
}

/// A composition, whose leaves in order are appended.
fn tree(rng: &mut Rng, depth: u32, log: &Log, leaves: &mut Vec<Arc<Leaf>>, shape: &mut String) -> Box<dyn Acker> {
    let kind = if depth == 0 { 0 } else { rng.below(9) };
    match kind {
        0 | 1 => {
            let leaf = Arc::new(Leaf {
                id: leaves.len() as u64,
                seed: rng.u64(),
                pace: any_pace(rng),
                fail: *rng.pick(&[0, 0, 0, 20, 60]),
                log: log.clone(),
            });
            leaves.push(leaf.clone());
            shape.push('.');
            Box::new(Shared(leaf))
        }
        2 => {
            shape.push('n');
            Box::new(NoopAcker::new())
        }
        3 => {
            shape.push('b');
            Box::new(Box::new(tree(rng, depth - 1, log, leaves, shape)))
        }
        4 => {
            shape.push('a');
            let t: Arc<dyn Acker> = Arc::from(tree(rng, depth - 1, log, leaves, shape));
            Box::new(t)
        }
        5 => {
            // Of unboxed ones.
            shape.push('(');
            let l = Box::new(Arc::from(tree(rng, depth - 1, log, leaves, shape)));
            let m = tree(rng, depth - 1, log, leaves, shape);
            let r = Arc::new(tree(rng, depth - 1, log, leaves, shape));
            shape.push(')');
            let l: Box<Arc<dyn Acker>> = l;
            Box::new(ComposedAcker::new(l, ComposedAcker::new(m, ComposedAcker::new(NoopAcker, r))))
        }
        _ => {
            shape.push('(');
            let l = tree(rng, depth - 1, log, leaves, shape);
            let r = tree(rng, depth - 1, log, leaves, shape);
            shape.push(')');
            Box::new(ComposedAcker::new(l, r))
        }
    }
}

fn virt(seed: u64, _: &Ctx) -> Res {
    vt(scenario(seed))
}
fn real(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, scenario(seed))
}

async fn scenario(seed: u64) -> Res {
    let mut rng = Rng::new(seed);
    let log: Log = Default::default();
    let (mut leaves, mut shape) = (vec![], String::new());
    let depth = rng.range(1, 4) as u32;
    let acker: Arc<dyn Acker> = Arc::from(tree(&mut rng, depth, &log, &mut leaves, &mut shape));
    let n = rng.range(1, 8);
    let concurrent = rng.chance(50);
    let calls: Vec<(u64, bool)> = (0..n).map(|c| (c, rng.chance(50))).collect();
    let mut outcomes: Vec<anyhow::Result<()>> = vec![];
    let go = |call: u64, nack: bool| -> BoxFuture<'static, anyhow::Result<()>> {
        let acker = acker.clone();
        Box::pin(CALL.scope(call, async move {
            if nack {
                acker.nack().await
            } else {
                acker.ack().await
            }
        }))
    };
    if concurrent {
        let hs: Vec<_> = calls.iter().map(|(c, k)| tokio::spawn(go(*c, *k))).collect();
        for h in hs {
            outcomes.push(within("an acknowledgement", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))?);
        }
    } else {
        for (c, k) in &calls {
            outcomes.push(within("an acknowledgement", go(*c, *k)).await?);
        }
    }
    // Anything that went on in the background would show up now.
    tokio::time::sleep(Duration::from_millis(if concurrent { 2 } else { 0 })).await;
    let log = log.lock().unwrap().clone();
    let mut failures = 0;
    for ((c, nack), out) in calls.iter().zip(outcomes) {
        let mut want = vec![];
        let mut err = None;
        for l in &leaves {
            want.push(Event { call: *c, leaf: l.id, nack: *nack, what: 0 });
            let fails = l.fails(*c, *nack);
            want.push(Event { call: *c, leaf: l.id, nack: *nack, what: 1 + fails as u8 });
            if fails {
                err = Some(format!("pv-acker-{}-{c}-{nack}", l.id));
                break;
            }
        }
        let got: Vec<Event> = log.iter().filter(|e| e.call == *c).cloned().collect();
        let brief = |v: &[Event]| {
            v.iter()
                .map(|e| format!("{}{}{}", if e.nack { "nack" } else { "ack" }, e.leaf, ["<", ">", "!"][e.what as usize]))
                .collect::<Vec<_>>()
                .join(" ")
        };
        let kind = if *nack { "nack" } else { "ack" };
        ensure!(got == want, "{kind} of {shape} made the calls [{}] instead of [{}]", brief(&got), brief(&want));
        match (&err, &out) {
            (None, Ok(())) => {}
            (Some(m), Err(e)) if format!("{e:#}").contains(m.as_str()) => failures += 1,
            _ => {
                return Err(format!("{kind} of {shape} gave {out:?} where {err:?} was expected").into());
            }
        }
    }
    Ok(Seen {
        sig: log.iter().fold(mix(n, shape.len() as u64), |h, e| mix(h, mix(e.call, mix(e.leaf, (e.nack as u64) * 4 + e.what as u64)))),
        nontrivial: leaves.len() > 1,
        sample: Some(json!({"shape": shape, "leaves": leaves.len(), "calls": n, "concurrent": concurrent, "failed": failures})),
        counts: vec![("calls", n), ("failed_calls", failures), ("leaf_calls", log.len() as u64 / 2)],
    })
}
