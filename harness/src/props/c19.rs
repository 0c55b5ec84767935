//! C19: a task whose worker is lost is executed by another and the job
//! completes.
use std::{
    collections::HashMap,
    sync::Arc,
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    directive::Directive,
    operation::{Operation, RemoteExecute},
    runtime::{Runtime, TASK_IPC_ROUTING_KEY},
    serializer::Serializer,
    task::AnyTask,
};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, leader, until, worker, Worker},
    common::{any_len, any_pace, check_outputs, items, paced_ok},
};
use crate::{
    broker::{Broker, Ev},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt},
    ledger,
    ops::{expected, Act, Cat, Item, Seg, Step, Step2},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "one case is a fake broker with delays, 2 to 5 workers on real connections, and a map, two chained maps or a fold \
               with several operations waiting at a gate, whose workers' connections are then lost one after another in \
               generated order (and replaced, or not, as long as one remains); the results must be complete and correct, and \
               each task that was being executed must have been delivered again. Distinct by the broker's log",
        families: vec![
            Family { name: "map", run: map, quick: 250, thorough: 15, threads: 6, secs: 30, min: 20 },
            Family { name: "fold", run: fold, quick: 200, thorough: 15, threads: 6, secs: 30, min: 20 },
            Family { name: "idle", run: idle, quick: 100, thorough: 15, threads: 6, secs: 30, min: 10 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "workers are lost while they execute or have nothing to do, not while they hand over a result",
        ],
        allowed_panics: vec![],
    }
}

async fn workers(b: &Arc<Broker>, s: paladin::config::Serializer, n: usize) -> Result<Vec<Worker>, Bad> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(worker(b, s, None).await?);
    }
    Ok(v)
}

/// Whether a task waits at the gate when executed.
fn is_gate(body: &[u8], ser: Serializer) -> bool {
    let Ok(t) = ser.from_bytes::<AnyTask>(body) else { return false };
    if t.operation_id == Cat::ID {
        t.serializer.from_bytes::<(Seg, Seg)>(&t.input).is_ok_and(|(a, b)| a.act == Act::Gate || b.act == Act::Gate)
    } else {
        t.serializer.from_bytes::<Item>(&t.input).is_ok_and(|x| x.act == Act::Gate && x.act_stage == x.stage)
    }
}

/// Loses the connections of workers that hold a task which waits at the gate,
/// until only one worker remains or enough are lost; returns how many, and the
/// tasks.
async fn lose(
    b: &Arc<Broker>,
    kind: paladin::config::Serializer,
    ws: &mut Vec<Worker>,
    gated: usize,
    rng: &mut Rng,
) -> Result<(u64, Vec<u64>), Bad> {
    let ser = match kind {
        paladin::config::Serializer::Postcard => Serializer::Postcard,
        paladin::config::Serializer::Cbor => Serializer::Cbor,
    };
    let mut lost = 0;
    let mut msgs = vec![];
    for _ in 0..rng.range(1, 6) {
        if ws.len() < 2 {
            break;
        }
        // The workers at the gate, and what they hold.
        let at_gate = |ws: &[Worker]| -> Vec<(u64, u64)> {
            let st = b.state();
            ws.iter()
                .filter_map(|w| {
                    // The results of its earlier tasks have been handed over.
                    let count = |f: fn(&Ev) -> bool| st.log.iter().filter(|e| e.conn == w.conn && f(&e.ev)).count();
                    let acked = count(|e| matches!(e, Ev::Ack { queue, .. } if queue == TASK_IPC_ROUTING_KEY));
                    if acked != count(|e| matches!(e, Ev::Publish { .. })) {
                        return None;
                    }
                    let m = *st.held(w.conn, TASK_IPC_ROUTING_KEY).first()?;
                    is_gate(&st.bodies[&m], ser).then_some((w.conn, m))
                })
                .collect()
        };
        let most = gated.min(ws.len());
        until(b, "the delivery of tasks of lost workers to others", async {
            while at_gate(ws).len() < most {
                tokio::time::sleep(Duration::from_micros(500)).await;
            }
        })
        .await?;
        if rng.chance(60) {
            // They are being executed.
            tokio::time::sleep(Duration::from_millis(rng.range(1, 8))).await;
        }
        let mut victims = at_gate(ws);
        rng.shuffle(&mut victims);
        let n = rng.range(1, (ws.len() as u64 - 1).min(victims.len() as u64));
        for (conn, m) in victims.into_iter().take(n as usize) {
            let i = ws.iter().position(|w| w.conn == conn).expect("worker");
            let w = ws.swap_remove(i);
            if rng.chance(30) {
                // Its process is gone.
                w.handle.abort();
            }
            b.kill(conn);
            msgs.push(m);
            lost += 1;
        }
        for _ in 0..rng.below(n + 1) {
            ws.push(worker(b, kind, None).await?);
        }
    }
    Ok((lost, msgs))
}

async fn redelivered(b: &Arc<Broker>, msgs: &[u64]) -> Result<(), Bad> {
    // The result may arrive before the acknowledgement.
    at_broker(b, "acknowledging the tasks of lost workers", |st| {
        msgs.iter().all(|m| st.log.iter().any(|e| matches!(&e.ev, Ev::Ack { msg, .. } if msg == m)))
    })
    .await?;
    let st = b.state();
    for m in msgs {
        let times = st.log.iter().filter(|e| matches!(&e.ev, Ev::Deliver { msg, .. } if msg == m)).count();
        ensure!(times >= 2, "task {m}, whose worker was lost, was delivered {times} times");
        let acked = st.log.iter().filter(|e| matches!(&e.ev, Ev::Ack { msg, .. } if msg == m)).count();
        ensure!(acked == 1, "task {m}, whose worker was lost, was acknowledged {acked} times");
    }
    for e in &st.log {
        if let Ev::Error { text, .. } = &e.ev {
            return Err(format!("the library violated the protocol: {text}").into());
        }
    }
    Ok(())
}

fn sig(b: &Broker) -> u64 {
    b.state().log.iter().fold(7, |h, e| {
        mix(
            h,
            match &e.ev {
                Ev::Deliver { msg, .. } => mix(e.conn, 2 * msg),
                Ev::Ack { msg, .. } => mix(e.conn, 2 * msg + 1),
                Ev::Closed(_) => e.conn,
                _ => 0,
            },
        )
    })
}

fn map(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let rt: Runtime = leader(&b, kind, None).await?;
        let n_workers = rng.range(2, 5) as usize;
        let mut ws = workers(&b, kind, n_workers).await?;
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = any_len(&mut rng, 60).max(1);
        let chained = rng.chance(40);
        let mut xs: Vec<(usize, Item)> =
            items(&mut rng, run.id, &(0..n).collect::<Vec<_>>(), true).into_iter().enumerate().collect();
        let gated = (1 + rng.usize(n)).min(n_workers + 8);
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        for i in order.iter().take(gated) {
            xs[*i].1.act = Act::Gate;
            xs[*i].1.act_stage = if chained && rng.chance(50) { 1 } else { 0 };
        }
        let (op, op2) = (Step(rng.u64()), Step2(rng.u64()));
        let want: HashMap<usize, Item> = xs
            .iter()
            .map(|(i, x)| {
                let y = expected(1, op.0, x);
                (*i, if chained { expected(2, op2.0, &y) } else { y })
            })
            .collect();
        let input = paced_ok(xs, any_pace(&mut rng), seed, 2);
        let job = async {
            let mut out = if chained {
                Directive::map(Directive::map(input, &op), &op2).run(&rt).await?
            } else {
                Directive::map(input, &op).run(&rt).await?
            };
            let mut got = vec![];
            while let Some(x) = out.next().await {
                got.push(x?);
            }
            Ok::<_, anyhow::Error>(got)
        };
        let control = async {
            let r = lose(&b, kind, &mut ws, gated, &mut rng).await;
            run.open_gate();
            r
        };
        let (got, r) = until(&b, "a map with lost workers", async { tokio::join!(job, control) }).await?;
        let (lost, msgs) = r?;
        let got = got?;
        check_outputs("map with lost workers", &got, &want)?;
        redelivered(&b, &msgs).await?;
        Ok(Seen {
            sig: sig(&b),
            nontrivial: !msgs.is_empty(),
            sample: Some(json!({"workers": n_workers, "elements": n, "chained": chained, "lost": lost, "tasks_lost": msgs.len()})),
            counts: vec![("elements", n as u64), ("workers_lost", lost), ("tasks_lost", msgs.len() as u64)],
        })
    })
}

fn fold(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let rt: Runtime = leader(&b, kind, None).await?;
        let n_workers = rng.range(2, 5) as usize;
        let mut ws = workers(&b, kind, n_workers).await?;
        let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
        let n = any_len(&mut rng, 60).max(2);
        let gate_at = rng.usize(n);
        let xs: Vec<(usize, Seg)> = (0..n)
            .map(|i| {
                let mut s = Seg::one(run.id, i as u64);
                if i == gate_at {
                    s.act = Act::Gate;
                }
                (i, s)
            })
            .collect();
        let op = Cat(run.id);
        let input = paced_ok(xs, any_pace(&mut rng), seed, 2);
        let job = Directive::fold(input, &op).run(&rt);
        let control = async {
            let r = lose(&b, kind, &mut ws, 1, &mut rng).await;
            run.open_gate();
            r
        };
        let (got, r) = until(&b, "a fold with lost workers", async { tokio::join!(job, control) }).await?;
        let (lost, msgs) = r?;
        let got = got?;
        ensure!(
            got.items == (0..n as u64).collect::<Vec<_>>(),
            "a fold of {n} elements with {lost} lost workers gave {:?}",
            &got.items[..got.items.len().min(20)]
        );
        if let Some(p) = run.first_problem() {
            return Err(p.into());
        }
        redelivered(&b, &msgs).await?;
        Ok(Seen {
            sig: sig(&b),
            nontrivial: !msgs.is_empty(),
            sample: Some(json!({"workers": n_workers, "elements": n, "lost": lost, "tasks_lost": msgs.len()})),
            counts: vec![("elements", n as u64), ("workers_lost", lost), ("tasks_lost", msgs.len() as u64)],
        })
    })
}

/// Workers lost between computations, and all of them before new ones come.
fn idle(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let rt: Runtime = leader(&b, kind, None).await?;
        let n_workers = rng.range(1, 4) as usize;
        let mut ws = workers(&b, kind, n_workers).await?;
        let (mut lost, mut total) = (0u64, 0u64);
        for round in 0..rng.range(2, 4) {
            let n = any_len(&mut rng, 30);
            let run = ledger::new_run(seed, ledger::random_delay(&mut rng));
            let op = Step(rng.u64());
            let xs: Vec<(usize, Item)> =
                items(&mut rng, run.id, &(0..n).collect::<Vec<_>>(), false).into_iter().enumerate().collect();
            let want: HashMap<usize, Item> = xs.iter().map(|(i, x)| (*i, expected(1, op.0, x))).collect();
            let input = paced_ok(xs, any_pace(&mut rng), seed, 2);
            let none_left = round > 0 && rng.chance(40);
            let job = async {
                let mut out = Directive::map(input, &op).run(&rt).await?;
                let mut got = vec![];
                while let Some(x) = out.next().await {
                    got.push(x?);
                }
                Ok::<_, anyhow::Error>(got)
            };
            if round > 0 {
                let keep = if none_left { 0 } else { 1 };
                while ws.len() > keep {
                    let w = ws.swap_remove(rng.usize(ws.len()));
                    b.kill(w.conn);
                    lost += 1;
                }
            }
            let control = async {
                if none_left {
                    // The tasks wait for a new worker.
                    tokio::time::sleep(Duration::from_millis(rng.range(1, 20))).await;
                    ws.push(worker(&b, kind, None).await?);
                }
                Ok::<(), Bad>(())
            };
            let (got, r) = until(&b, "a map after the loss of workers", async { tokio::join!(job, control) }).await?;
            r?;
            check_outputs("map after the loss of workers", &got?, &want)?;
            super::common::check_tally(&run, 0, 0..n as u64)?;
            total += n as u64;
        }
        redelivered(&b, &[]).await?;
        Ok(Seen {
            sig: sig(&b),
            nontrivial: lost > 0 && total > 0,
            sample: Some(json!({"workers": n_workers, "elements": total, "lost": lost})),
            counts: vec![("elements", total), ("workers_lost", lost)],
        })
    })
}
