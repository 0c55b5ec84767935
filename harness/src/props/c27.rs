//! C27: task buses with different routing keys are isolated.
use std::{
    collections::{HashMap, HashSet},
    sync::Arc,
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    config::Serializer as Kind,
    directive::Directive,
    operation::marker::Marker,
    runtime::{Runtime, TASK_IPC_ROUTING_KEY},
    serializer::Serializer,
    task::AnyTask,
};
use serde_json::json;

use super::{
    amqp::{broker, leader, until, worker, Worker},
    common::{alike, any_len, any_pace, check_fold, check_outputs, check_tally, items, paced_ok},
};
use crate::{
    broker::{Broker, Ev},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, vt, within},
    ledger::{self, RunGuard},
    ops::{expected, Cat, Item, Seg, Step, Step2},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        rule: "shared: one case is a fake broker shared by 2 to 4 deployments with different task bus routing keys (none, and \
               generated ones that are prefixes, case variants and the like of each other), each with 0 to 3 workers and 1 or \
               2 leaders that run maps and folds at the same time; each task must be delivered exactly once, to a worker with \
               its leader's key, and the tasks of deployments without workers must stay put until one is started; in-memory: \
               one case is several in-memory runtimes with keys. Distinct by the broker's log, or the execution order",
        families: vec![
            Family { name: "shared", run: shared, quick: 300, thorough: 15, threads: 6, secs: 30, min: 20 },
            Family { name: "in-memory", run: in_memory, quick: 300, thorough: 15, threads: 4, secs: 20, min: 20 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "keys are not empty, at most 255 bytes long, and not equal to a name the library uses itself",
        ],
        allowed_panics: vec![],
    }
}

fn ser(kind: Kind) -> Serializer {
    match kind {
        Kind::Postcard => Serializer::Postcard,
        Kind::Cbor => Serializer::Cbor,
    }
}

/// Different keys that are alike; `None` is usually among them.
fn keys(rng: &mut Rng) -> Vec<Option<String>> {
    let base = format!("pv{:x}", rng.below(1 << 20));
    let mut all = vec![
        Some(base.clone()),
        Some(format!("{base}-")),
        Some(format!("{base}.a")),
        Some(base.to_uppercase()),
        Some(format!(" {base}")),
        Some(format!("{base} ")),
        Some(base[1..].to_string()),
        Some(base.chars().rev().collect()),
        Some(format!("{TASK_IPC_ROUTING_KEY}-{base}")),
        Some(format!("{base}-{TASK_IPC_ROUTING_KEY}")),
        Some(TASK_IPC_ROUTING_KEY.to_uppercase()),
        Some(TASK_IPC_ROUTING_KEY[..7].to_string()),
        Some("#".into()),
        Some("*".into()),
        Some("0".into()),
        Some("None".into()),
        Some(format!("{base}\u{e9}\u{4e16}")),
        Some("x".repeat(rng.range(120, 255) as usize)),
        Some(format!("{}y", "x".repeat(rng.range(100, 119) as usize))),
    ];
    if rng.chance(50) {
        all = alike(rng, 4).into_iter().map(Some).collect();
    }
    all.sort();
    all.dedup();
    rng.shuffle(&mut all);
    all.truncate(rng.range(1, 4) as usize);
    if all.len() < 2 || rng.chance(70) {
        all.push(None);
    }
    all.truncate(4);
    rng.shuffle(&mut all);
    all
}

enum Job {
    Map(Step, Vec<(usize, Item)>),
    Chain(Step, Step2, Vec<(usize, Item)>),
    Fold(Cat, Vec<(usize, Seg)>),
}

fn job(rng: &mut Rng) -> (RunGuard, Job) {
    let run = ledger::new_run(rng.u64(), ledger::random_delay(rng));
    let j = match rng.below(3) {
        0 => {
            let n = any_len(rng, 30).max(1);
            let xs = items(rng, run.id, &(0..n).collect::<Vec<_>>(), true).into_iter().enumerate().collect();
            Job::Map(Step(rng.u64()), xs)
        }
        1 => {
            let n = any_len(rng, 20).max(1);
            let xs = items(rng, run.id, &(0..n).collect::<Vec<_>>(), false).into_iter().enumerate().collect();
            Job::Chain(Step(rng.u64()), Step2(rng.u64()), xs)
        }
        _ => {
            let n = any_len(rng, 30).max(2);
            Job::Fold(Cat(run.id), (0..n).map(|i| (i, Seg::one(run.id, i as u64))).collect())
        }
    };
    (run, j)
}

async fn execute(rt: Arc<Runtime>, run: RunGuard, job: Job, seed: u64) -> Result<(u64, u64), Bad> {
    let mut rng = Rng::new(seed);
    let pace = any_pace(&mut rng);
    match job {
        Job::Map(op, xs) => {
            let want: HashMap<usize, Item> = xs.iter().map(|(i, x)| (*i, expected(1, op.0, x))).collect();
            let mut out = Directive::map(paced_ok(xs, pace, seed, 2), &op).run(&rt).await?;
            let mut got = vec![];
            while let Some(x) = out.next().await {
                got.push(x?);
            }
            check_outputs("a map on a shared broker", &got, &want)?;
            check_tally(&run, 0, 0..want.len() as u64)?;
            Ok((want.len() as u64, run.order_sig()))
        }
        Job::Chain(op, op2, xs) => {
            let want: HashMap<usize, Item> =
                xs.iter().map(|(i, x)| (*i, expected(2, op2.0, &expected(1, op.0, x)))).collect();
            let mut out = Directive::map(Directive::map(paced_ok(xs, pace, seed, 2), &op), &op2).run(&rt).await?;
            let mut got = vec![];
            while let Some(x) = out.next().await {
                got.push(x?);
            }
            check_outputs("two maps on a shared broker", &got, &want)?;
            check_tally(&run, 0, 0..want.len() as u64)?;
            check_tally(&run, 1, 0..want.len() as u64)?;
            Ok((2 * want.len() as u64, run.order_sig()))
        }
        Job::Fold(op, xs) => {
            let n = xs.len();
            let got = Directive::fold(paced_ok(xs, pace, seed, 2), &op).run(&rt).await?;
            check_fold(&run, &got, n)?;
            Ok((n as u64 - 1, run.order_sig()))
        }
    }
}

struct Deployment {
    key: Option<String>,
    leaders: Vec<(u64, Arc<Runtime>)>,
    workers: Vec<Worker>,
    worker_conns: HashSet<u64>,
}

fn shared(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let mut deps: Vec<Deployment> = keys(&mut rng)
            .into_iter()
            .map(|key| Deployment { key, leaders: vec![], workers: vec![], worker_conns: HashSet::new() })
            .collect();
        // Leaders and workers come in any order.
        let mut plan: Vec<(usize, bool)> = vec![];
        for d in 0..deps.len() {
            for _ in 0..rng.range(1, 2) {
                plan.push((d, true));
            }
            for _ in 0..rng.below(4) {
                plan.push((d, false));
            }
        }
        rng.shuffle(&mut plan);
        for (d, is_leader) in plan {
            let conn = b.connections();
            let key = deps[d].key.clone();
            if is_leader {
                let rt = leader(&b, kind, key.as_deref()).await?;
                deps[d].leaders.push((conn, Arc::new(rt)));
            } else {
                deps[d].workers.push(worker(&b, kind, key.as_deref()).await?);
                deps[d].worker_conns.insert(conn);
            }
        }
        let sizes: Vec<usize> = deps.iter().map(|d| d.workers.len()).collect();
        let names: Vec<String> = deps.iter().map(|d| format!("{:?}", d.key)).collect();
        let what = format!("deployments with the keys {names:?} and {sizes:?} workers");
        let mut running = vec![];
        let mut stuck = vec![];
        let mut runs = vec![];
        for (d, dep) in deps.iter().enumerate() {
            for (_, rt) in &dep.leaders {
                for _ in 0..rng.range(1, 2) {
                    let (run, j) = job(&mut rng);
                    runs.push((d, run.0.clone()));
                    let t = tokio::spawn(execute(rt.clone(), run, j, rng.u64()));
                    if dep.workers.is_empty() {
                        stuck.push((d, t));
                    } else {
                        running.push((d, t));
                    }
                }
            }
        }
        let mut tasks = 0;
        for (d, t) in running {
            tasks += until(&b, &format!("a computation of deployment {d} of {what}"), t)
                .await?
                .map_err(|e| Bad::Inconclusive(e.to_string()))??
                .0;
        }
        // Those without workers have waited.
        if !stuck.is_empty() && rng.chance(50) {
            tokio::time::sleep(Duration::from_millis(rng.range(1, 30))).await;
        }
        for (d, t) in &stuck {
            ensure!(!t.is_finished(), "{what}: a computation of deployment {d} has ended without workers of its own");
        }
        for (d, r) in &runs {
            if sizes[*d] == 0 {
                ensure!(r.count() == 0, "{what}: {} tasks of deployment {d}, which has no workers, were executed", r.count());
            }
        }
        let waited = stuck.len() as u64;
        for d in 0..deps.len() {
            if sizes[d] == 0 {
                let conn = b.connections();
                let key = deps[d].key.clone();
                deps[d].workers.push(worker(&b, kind, key.as_deref()).await?);
                deps[d].worker_conns.insert(conn);
            }
        }
        for (d, t) in stuck {
            tasks += until(&b, &format!("a computation of deployment {d} of {what}, with a worker started late,"), t)
                .await?
                .map_err(|e| Bad::Inconclusive(e.to_string()))??
                .0;
        }
        let sig = deliveries(&b, ser(kind), &deps, &what)?;
        Ok(Seen {
            sig,
            nontrivial: tasks > 0,
            sample: Some(json!({"keys": names, "workers": sizes, "tasks": tasks, "computations": runs.len()})),
            counts: vec![
                ("tasks", tasks),
                ("deployments", deps.len() as u64),
                ("computations", runs.len() as u64),
                ("computations_without_workers_at_first", waited),
            ],
        })
    })
}

/// Each task was delivered once, to a worker of its leader's deployment.
fn deliveries(b: &Broker, ser: Serializer, deps: &[Deployment], what: &str) -> Result<u64, Bad> {
    let st = b.state();
    let mut owner: HashMap<u64, usize> = HashMap::new();
    let mut times: HashMap<u64, u32> = HashMap::new();
    let mut sig = 7;
    for e in &st.log {
        match &e.ev {
            Ev::Publish { msg, key, queues, .. } => {
                let Some(d) = deps.iter().position(|d| d.leaders.iter().any(|l| l.0 == e.conn)) else { continue };
                if ser.from_bytes::<AnyTask>(&st.bodies[msg]).is_err() {
                    continue;
                }
                ensure!(queues.len() == 1, "{what}: a task of deployment {d}, published to {key:?}, reached {} queues", queues.len());
                owner.insert(*msg, d);
            }
            Ev::Deliver { msg, .. } => {
                let Some(d) = owner.get(msg) else { continue };
                ensure!(
                    deps[*d].worker_conns.contains(&e.conn),
                    "{what}: a task of deployment {d} was delivered to a worker of deployment {:?}",
                    deps.iter().position(|x| x.worker_conns.contains(&e.conn))
                );
                *times.entry(*msg).or_default() += 1;
                sig = mix(sig, mix(e.conn, *msg));
            }
            Ev::Error { text, .. } => return Err(format!("{what}: the library violated the protocol: {text}").into()),
            _ => {}
        }
    }
    for (m, d) in owner {
        let n = times.get(&m).copied().unwrap_or_default();
        ensure!(n == 1, "{what}: a task of deployment {d} was delivered {n} times");
    }
    Ok(sig)
}

/// A key makes no difference to in-memory runtimes, which share nothing.
fn in_memory(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let mut ks = keys(&mut rng);
        if rng.chance(50) {
            // The same key, too.
            let k = ks[0].clone();
            ks.push(k);
        }
        let mut rts = vec![];
        for k in &ks {
            let c = paladin::config::Config {
                task_bus_routing_key: k.clone(),
                ..crate::env::config(rng.range(1, 3) as usize, any_serializer(&mut rng))
            };
            rts.push(Arc::new(
                Runtime::from_config(&c, Marker)
                    .await
                    .map_err(|e| Bad::Violation(format!("in-memory runtime not created: {e:#}")))?,
            ));
        }
        let mut hs = vec![];
        let mut sig = ks.len() as u64;
        for rt in &rts {
            let (run, j) = job(&mut rng);
            hs.push(tokio::spawn(execute(rt.clone(), run, j, rng.u64())));
        }
        let mut tasks = 0;
        for (i, h) in hs.into_iter().enumerate() {
            let (n, order) = within(&format!("a computation on an in-memory runtime with the key {:?}", ks[i]), h)
                .await?
                .map_err(|e| Bad::Inconclusive(e.to_string()))??;
            tasks += n;
            sig = mix(sig, order);
        }
        Ok(Seen {
            sig,
            nontrivial: tasks > 0,
            sample: Some(json!({"keys": ks, "tasks": tasks})),
            counts: vec![("tasks", tasks)],
        })
    })
}
