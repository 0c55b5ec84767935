//! C29: the configured serializer is the one used on the wire.
use std::{
    collections::HashMap,
    sync::Arc,
};

use futures::StreamExt;
use paladin::{
    config::Serializer as Kind,
    directive::{Directive, IndexedStream},
    operation::RemoteExecute,
    queue::{in_memory::InMemoryConnection, Connection, Publisher, QueueHandle, SyndicationMode},
    runtime::{CommandIpc, Runtime},
    serializer::Serializer,
    task::{AnyTask, AnyTaskResult, Task},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::json;

use super::{
    amqp::{at_broker, broker, connect, leader, until, worker},
    c09::options,
    common::{any_len, any_pace, paced_ok},
};
use crate::{
    broker::{Broker, Ev},
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, runtime, vt, within},
    probe::{self, Probe, ProbeCat, ProbeOp, Role},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        level: "exploration",
        rule: "wire: one case is a leader and 1 to 3 workers on a fake broker that run tasks, maps and folds of values that \
               note what they are encoded with, and abort commands; every message body seen by the broker must be exactly the \
               configured serializer's encoding of a task, result or command, with all parts of tasks and results encoded by \
               the same one; connection: one case publishes values to queues of AMQP and in-memory connections with a \
               generated serializer; in-memory: the same computations on an in-memory runtime. Results must be the same \
               with either. Distinct by the configuration and the traffic",
        families: vec![
            Family { name: "wire", run: wire, quick: 250, thorough: 15, threads: 6, secs: 30, min: 20 },
            Family { name: "connection", run: connection, quick: 250, thorough: 15, threads: 6, secs: 20, min: 20 },
            Family { name: "in-memory", run: in_memory, quick: 600, thorough: 15, threads: 4, secs: 20, min: 20 },
        ],
        assumptions: vec![
            "the broker is a fake one that implements the parts of AMQP 0-9-1 the library uses",
            "leader and workers are configured with the same serializer",
        ],
        allowed_panics: vec![],
    }
}

fn ser(kind: Kind) -> Serializer {
    match kind {
        Kind::Postcard => Serializer::Postcard,
        Kind::Cbor => Serializer::Cbor,
    }
}

fn text(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0u64, 1, 3, 17, 30, 200, 1500]);
    (0..n).map(|_| *rng.pick(&['a', 'Z', '\u{e9}', '\u{1f980}', '7'])).collect()
}

fn any_probe(rng: &mut Rng, run: u64, role: Role, idx: u64) -> Probe {
    Probe { run, role, idx, text: text(rng) }
}

/// The crates that the two serializers come from, as probes see them.
fn crates(s: Serializer, run: u64) -> Result<(String, String), Bad> {
    let of = |s: Serializer| -> Result<String, Bad> {
        let id = mix(run, 0xca11);
        probe::start(id);
        let p = Probe { run: id, role: Role::Payload, idx: 1, text: "x".into() };
        let r = s.to_bytes(&p);
        let seen = probe::stop(id);
        r?;
        seen.keys().next().map(|k| k.2.clone()).ok_or(Bad::Inconclusive("nothing noted".into()))
    };
    let mine = of(s)?;
    let other = of(match s {
        Serializer::Postcard => Serializer::Cbor,
        Serializer::Cbor => Serializer::Postcard,
    })?;
    Ok((mine, other))
}

/// Nothing was encoded or decoded by the other serializer.
fn check_seen(what: &str, seen: &probe::Seen, s: Serializer, run: u64, roles: &[Role]) -> Result<u64, Bad> {
    let (_, other) = crates(s, run)?;
    let mut n = 0;
    for ((role, encoded, origin), k) in seen {
        ensure!(
            *origin != other,
            "{what}: {role:?} was {} {k} times by the wrong serializer ({origin}) although {s:?} is configured",
            if *encoded { "encoded" } else { "decoded" }
        );
        n += k;
    }
    for role in roles {
        for encoded in [true, false] {
            ensure!(
                seen.keys().any(|k| k.0 == *role && k.1 == encoded),
                "{what}: {role:?} was never {}",
                if encoded { "encoded" } else { "decoded" }
            );
        }
    }
    Ok(n)
}

/// The bytes are this serializer's encoding of a value of this type.
fn exact<T: Serialize + DeserializeOwned>(what: &str, s: Serializer, bytes: &[u8]) -> Result<T, Bad> {
    let x: T = s
        .from_bytes(bytes)
        .map_err(|e| Bad::Violation(format!("{what} can't be decoded with the configured serializer {s:?}: {e:#}")))?;
    let again = s.to_bytes(&x)?;
    ensure!(again.as_ref() == bytes, "{what} is not what the configured serializer {s:?} encodes it as");
    Ok(x)
}

struct Done {
    tasks: u64,
    outputs: u64,
}

/// Tasks with metadata, a map and a fold; the results don't depend on the
/// serializer.
async fn computations(rt: &Runtime, run: u64, rng: &mut Rng) -> Result<Done, Bad> {
    let op = ProbeOp(any_probe(rng, run, Role::Operation, 0));
    let mut done = Done { tasks: 0, outputs: 0 };
    // Tasks.
    let (id, sender, mut receiver) = rt.lease_coordinated_task_channel::<ProbeOp, Probe>().await?;
    let n = rng.range(1, 6);
    let mut want = HashMap::new();
    for i in 0..n {
        let metadata = any_probe(rng, run, Role::Metadata, i);
        let input = any_probe(rng, run, Role::Input, i);
        want.insert(i, (metadata.clone(), op.of(&input)));
        sender.publish(&Task { routing_key: id.clone(), metadata, op: &op, input }).await?;
    }
    sender.close().await?;
    while let Some((r, acker)) = receiver.next().await {
        acker.ack().await?;
        let r = r?;
        let i = r.metadata.idx;
        ensure!(
            want.remove(&i).is_some_and(|(m, o)| m == r.metadata && o == r.output),
            "the result of task {i} is wrong"
        );
        done.outputs += 1;
    }
    ensure!(want.is_empty(), "{} of {n} tasks gave no result", want.len());
    done.tasks += n;
    // A map.
    let n = any_len(rng, 12);
    let xs: Vec<(usize, Probe)> = (0..n).map(|i| (i, any_probe(rng, run, Role::Input, i as u64))).collect();
    let want: HashMap<usize, Probe> = xs.iter().map(|(i, x)| (*i, op.of(x))).collect();
    let mut out: IndexedStream<'_, Probe> =
        Directive::map(paced_ok(xs, any_pace(rng), rng.u64(), 2), &op).run(rt).await?;
    let mut got = HashMap::new();
    while let Some(x) = out.next().await {
        let (i, x) = x?;
        got.insert(i, x);
    }
    ensure!(got == want, "a map of {n} values gave {} outputs, some wrong", got.len());
    done.tasks += n as u64;
    // A fold.
    let n = any_len(rng, 12).max(2);
    let xs: Vec<(usize, Probe)> = (0..n).map(|i| (i, any_probe(rng, run, Role::Input, i as u64))).collect();
    let want: String = xs.iter().map(|x| x.1.text.as_str()).collect();
    let cat = ProbeCat(any_probe(rng, run, Role::Operation, 1));
    let got = Directive::fold(paced_ok(xs, any_pace(rng), rng.u64(), 2), &cat).run(rt).await?;
    ensure!(got.text == want, "a fold of {n} values gave a wrong result");
    done.tasks += n as u64 - 1;
    Ok(done)
}

fn wire(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 4) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let kind = any_serializer(&mut rng);
        let s = ser(kind);
        let rt = Arc::new(leader(&b, kind, None).await?);
        let n_workers = rng.range(1, 3);
        let mut ws = vec![];
        for _ in 0..n_workers {
            ws.push(worker(&b, kind, None).await?);
        }
        let run = mix(seed, 0x29);
        probe::start(run);
        let done = until(&b, "a computation", computations(&rt, run, &mut rng)).await??;
        let mut commands = 0;
        for _ in 0..rng.below(3) {
            let c = rt.get_command_ipc_sender().await?;
            c.publish(&CommandIpc::Abort { routing_key: format!("pv-{}", text(&mut rng)) }).await?;
            c.close().await?;
            commands += 1;
        }
        let fails = rng.chance(40);
        if fails {
            // An error result, and the command that follows.
            let op = ProbeOp(any_probe(&mut rng, run, Role::Operation, 2));
            let (id, sender, mut receiver) = rt.lease_coordinated_task_channel::<ProbeOp, Probe>().await?;
            let input = Probe { run, role: Role::Input, idx: 0, text: "pv-fail".into() };
            sender
                .publish(&Task { routing_key: id.clone(), metadata: any_probe(&mut rng, run, Role::Metadata, 0), op: &op, input })
                .await?;
            let r = until(&b, "an error result", receiver.next()).await?;
            let (r, acker) = r.ok_or("the results ended without the error".to_string())?;
            acker.ack().await?;
            let e = r.err().ok_or("a failing task gave a result".to_string())?;
            ensure!(e.to_string().contains("pv-failure \u{2713}"), "the error {e:#} is not the task's");
            commands += 1;
        }
        at_broker(&b, "the arrival of the commands", |st| {
            st.log.iter().filter(|e| matches!(&e.ev, Ev::Publish { exchange, .. } if !exchange.is_empty())).count() >= commands
        })
        .await?;
        let seen = probe::stop(run);
        let what = format!("a leader and {n_workers} workers with {s:?}");
        let parts = check_seen(&what, &seen, s, run, &[Role::Operation, Role::Input, Role::Output, Role::Metadata])?;
        let (bodies, sig) = bodies(&b, s)?;
        ensure!(bodies >= done.tasks, "{what}: only {bodies} messages for {} tasks", done.tasks);
        Ok(Seen {
            sig,
            nontrivial: true,
            sample: Some(json!({"serializer": format!("{s:?}"), "workers": n_workers, "tasks": done.tasks, "messages": bodies,
                "fails": fails})),
            counts: vec![("messages", bodies), ("parts", parts), ("tasks", done.tasks), ("commands", commands as u64)],
        })
    })
}

/// Every message body is this serializer's.
fn bodies(b: &Broker, s: Serializer) -> Result<(u64, u64), Bad> {
    let st = b.state();
    let (mut n, mut sig) = (0, s as u64);
    // Queues of results are named in tasks.
    let mut result_queues = std::collections::HashSet::new();
    for e in &st.log {
        match &e.ev {
            Ev::Publish { exchange, key, msg, .. } => {
                n += 1;
                let body = &st.bodies[msg];
                sig = mix(sig, mix(e.conn, body.len() as u64));
                if !exchange.is_empty() {
                    exact::<CommandIpc>("a command", s, body)?;
                } else if result_queues.contains(key) {
                    match exact::<AnyTaskResult>("a result", s, body)? {
                        AnyTaskResult::Ok(o) => {
                            ensure!(o.serializer as u8 == s as u8, "a result names {:?} instead of {s:?}", o.serializer);
                            exact_probe("a result's output", s, &o.output)?;
                        }
                        AnyTaskResult::Err(_) => {}
                    }
                } else {
                    let t: AnyTask = exact("a task", s, body)?;
                    ensure!(t.serializer as u8 == s as u8, "a task names {:?} instead of {s:?}", t.serializer);
                    if t.operation_id == ProbeOp::ID {
                        exact::<ProbeOp>("a task's operation", s, &t.op)?;
                        exact_probe("a task's input", s, &t.input)?;
                    } else {
                        exact::<ProbeCat>("a task's operation", s, &t.op)?;
                        exact::<(Probe, Probe)>("a task's input", s, &t.input)?;
                    }
                    result_queues.insert(t.routing_key);
                }
            }
            Ev::Error { text, .. } => return Err(format!("the library violated the protocol: {text}").into()),
            _ => {}
        }
    }
    Ok((n, sig))
}

fn exact_probe(what: &str, s: Serializer, bytes: &[u8]) -> Result<(), Bad> {
    exact::<Probe>(what, s, bytes).map(|_| ())
}

/// Queues of a connection, used directly.
fn connection(seed: u64, _: &Ctx) -> Res {
    mt(1 + (seed % 3) as usize, async move {
        let mut rng = Rng::new(seed);
        let b = broker(&mut rng)?;
        let mut sig = 3;
        let mut total = 0;
        let conns = rng.range(1, 3);
        for c in 0..conns {
            let s = if rng.chance(50) { Serializer::Postcard } else { Serializer::Cbor };
            let memory = rng.chance(35);
            let (conn, amqp) = connect(&b, rng.chance(50).then_some(1), s).await?;
            let mem = InMemoryConnection::new(s);
            let run = mix(seed, 0x2900 + c);
            for q in 0..rng.range(1, 2) {
                let mode =
                    if rng.chance(50) { SyndicationMode::ExactlyOnce } else { SyndicationMode::Broadcast };
                let opts = options(&mut rng, mode);
                let name = format!("pv-{c}-{q}");
                let n = rng.range(1, 8);
                let xs: Vec<Probe> = (0..n).map(|i| any_probe(&mut rng, run, Role::Payload, i)).collect();
                probe::start(run);
                let what = format!(
                    "an {} connection with {s:?} ({mode:?})",
                    if memory { "in-memory" } else { "AMQP" }
                );
                let before = b.state().log.len();
                if memory {
                    through(&b, &what, &mem, &name, opts, &xs).await?;
                } else {
                    through(&b, &what, &amqp, &name, opts, &xs).await?;
                    let st = b.state();
                    let mut k = 0;
                    for e in &st.log[before..] {
                        if let Ev::Publish { msg, .. } = &e.ev {
                            ensure!(e.conn == conn, "{what}: a message of another connection");
                            let p: Probe = exact(&format!("{what}: a message"), s, &st.bodies[msg])?;
                            ensure!(xs[k] == p, "{what}: message {k} is another one on the wire");
                            k += 1;
                        }
                    }
                    ensure!(k as u64 == n, "{what}: {k} messages on the wire instead of {n}");
                }
                let seen = probe::stop(run);
                total += check_seen(&what, &seen, s, run, &[Role::Payload])?;
                sig = mix(sig, mix(n, mix(s as u64, mode as u64 * 2 + memory as u64)));
                sig = xs.iter().fold(sig, |h, x| mix(h, x.text.len() as u64));
            }
        }
        Ok(Seen {
            sig,
            nontrivial: true,
            sample: Some(json!({"connections": conns, "parts": total})),
            counts: vec![("parts", total)],
        })
    })
}

async fn through<C: Connection>(
    b: &Arc<Broker>,
    what: &str,
    conn: &C,
    name: &str,
    opts: paladin::queue::QueueOptions,
    xs: &[Probe],
) -> Result<(), Bad> {
    let q = conn.declare_queue(name, opts).await?;
    let mut consumer = Box::pin(q.declare_consumer::<Probe>(&format!("c-{name}")).await?);
    let p = q.publisher();
    for x in xs {
        p.publish(x).await?;
    }
    for (i, x) in xs.iter().enumerate() {
        let (got, acker) = until(b, &format!("{what}: receiving message {i}"), consumer.next())
            .await?
            .ok_or_else(|| Bad::Violation(format!("{what}: the consumer ended")))?;
        paladin::acker::Acker::ack(&acker).await?;
        ensure!(got == *x, "{what}: message {i} arrived changed");
    }
    Ok(())
}

fn in_memory(seed: u64, _: &Ctx) -> Res {
    vt(async {
        let mut rng = Rng::new(seed);
        let kind = any_serializer(&mut rng);
        let s = ser(kind);
        let workers = rng.range(1, 4) as usize;
        let rt = runtime(workers, kind).await?;
        let run = mix(seed, 0x2a);
        probe::start(run);
        let done = within("a computation", computations(&rt, run, &mut rng)).await??;
        let seen = probe::stop(run);
        let what = format!("an in-memory runtime of {workers} workers with {s:?}");
        let parts = check_seen(&what, &seen, s, run, &[Role::Operation, Role::Input, Role::Output, Role::Metadata])?;
        Ok(Seen {
            sig: mix(parts, mix(workers as u64, s as u64)),
            nontrivial: true,
            sample: Some(json!({"serializer": format!("{s:?}"), "workers": workers, "tasks": done.tasks})),
            counts: vec![("parts", parts), ("tasks", done.tasks)],
        })
    })
}
