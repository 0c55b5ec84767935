//! C17: a task always executes the operation it was created for.
use std::collections::HashMap;

use opsx::{Handle, Meta, Out};
use paladin::{
    operation::{Operation, Result},
    serializer::Serializer,
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::c16::{blob, sers, text};
use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::{any_serializer, mt, runtime, vt, within},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "one case is a set of tasks of operations drawn from more than 100 (of the same names in different modules, \
               function bodies and crates), each with a constructor argument, an input and generated metadata, executed \
               directly, concurrently, or through a runtime; each output names the operation that ran, its argument and its \
               input. Non-trivial if at least two different operations ran; distinct by the operations and arguments",
        families: vec![
            Family { name: "direct", run: direct, quick: 1500, thorough: 20, threads: 6, secs: 20, min: 20 },
            Family { name: "all", run: all_ops, quick: 12, thorough: 10, threads: 2, secs: 20, min: 2 },
            Family { name: "runtime", run: through_runtime, quick: 400, thorough: 20, threads: 3, secs: 25, min: 10 },
            Family { name: "unknown", run: unknown, quick: 1500, thorough: 20, threads: 6, secs: 15, min: 20 },
        ],
        assumptions: vec![],
        allowed_panics: vec![],
    }
}

mod here {
    use super::*;
    pub mod a {
        use super::*;
        opsx::op!(Same, 2001);
        opsx::op!(Step, 2002);
    }
    pub mod b {
        use super::*;
        opsx::op!(Same, 2003);
        pub mod a {
            use super::*;
            opsx::op!(Same, 2004);
        }
    }
}
opsx::op!(Same, 2005);

fn bodies() -> Vec<Handle> {
    fn f() -> Handle {
        opsx::op!(Local, 2006);
        opsx::with_remote(2006, |k| Local { k })
    }
    fn g() -> Handle {
        opsx::op!(Local, 2007);
        opsx::with_remote(2007, |k| Local { k })
    }
    vec![f(), g()]
}

fn remotes() -> Vec<Handle> {
    let mut v = opsx::some();
    v.extend(opsx::in_bodies());
    v.extend(opsx::named());
    v.extend(bodies());
    v.extend([
        opsx::with_remote(2001, |k| here::a::Same { k }),
        opsx::with_remote(2002, |k| here::a::Step { k }),
        opsx::with_remote(2003, |k| here::b::Same { k }),
        opsx::with_remote(2004, |k| here::b::a::Same { k }),
        opsx::with_remote(2005, |k| Same { k }),
    ]);
    v
}

fn everything() -> Vec<Handle> {
    let mut v = opsx::many();
    v.extend(remotes());
    let mut seen = std::collections::HashSet::new();
    v.retain(|h| seen.insert(h.tag));
    v
}

fn meta(r: &mut Rng) -> Meta {
    Meta {
        id: r.u64(),
        text: text(r),
        bytes: blob(r),
        pair: r.chance(50).then(|| (r.u64() as i32, r.chance(50))),
    }
}

struct Call {
    h: Handle,
    k: u64,
    x: u64,
    meta: Meta,
    s: Serializer,
}

fn call(h: Handle, r: &mut Rng) -> Call {
    Call { h, k: r.u64(), x: r.u64() >> r.below(64), meta: meta(r), s: *r.pick(&sers()) }
}

fn check(c: &Call, got: anyhow::Result<(Meta, Out)>) -> std::result::Result<(), Bad> {
    let (m, out) = got.map_err(|e| Bad::Violation(format!("operation {}: {e:#}", c.h.tag)))?;
    ensure!(
        out == (c.h.tag, c.k, c.x),
        "a task of operation {} with argument {:x} and input {:x} executed operation {} with argument {:x} and input {:x}",
        c.h.tag,
        c.k,
        c.x,
        out.0,
        out.1,
        out.2
    );
    ensure!(m == c.meta, "operation {}: metadata {:?} came back as {m:?}", c.h.tag, c.meta);
    Ok(())
}

async fn execute(c: Call, outer: Serializer) -> std::result::Result<(), Bad> {
    let task = (c.h.task)(c.k, c.x, "r".into(), c.meta.clone(), c.s)?;
    // As it travels.
    let task: paladin::task::AnyTask = outer.from_bytes(&outer.to_bytes(&task)?)?;
    let out = task
        .remote_execute(None)
        .await
        .map_err(|e| Bad::Violation(format!("operation {}: {e:#}", c.h.tag)))?;
    check(&c, (c.h.output)(out))
}

fn direct(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let ops = everything();
    let n = r.range(2, 24);
    let calls: Vec<Call> = (0..n).map(|_| call(*r.pick(&ops), &mut r)).collect();
    let sig = calls.iter().fold(seed, |h, c| mix(h, mix(c.h.tag as u64, c.k)));
    let tags: Vec<u32> = calls.iter().map(|c| c.h.tag).collect();
    let outer = any_serializer_pair(&mut r);
    let go = async move {
        let hs: Vec<_> = calls.into_iter().map(|c| tokio::spawn(execute(c, outer))).collect();
        for h in hs {
            within("executing a task", h).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
        Ok::<(), Bad>(())
    };
    if r.chance(60) {
        vt(go)?
    } else {
        mt(3, go)?
    }
    Ok(Seen { sig, nontrivial: true, sample: Some(json!({"operations": tags})), counts: vec![("tasks", n)] })
}

fn any_serializer_pair(r: &mut Rng) -> Serializer {
    *r.pick(&sers())
}

/// Every operation, one after another and all at once.
fn all_ops(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let mut ops = everything();
    r.shuffle(&mut ops);
    let calls: Vec<Call> = ops.iter().map(|h| call(*h, &mut r)).collect();
    let n = calls.len() as u64;
    let at_once = r.chance(50);
    let outer = any_serializer_pair(&mut r);
    mt(4, async move {
        let mut hs = vec![];
        for c in calls {
            let h = tokio::spawn(execute(c, outer));
            if at_once {
                hs.push(h);
            } else {
                h.await.map_err(|e| Bad::Inconclusive(e.to_string()))??;
            }
        }
        for h in hs {
            h.await.map_err(|e| Bad::Inconclusive(e.to_string()))??;
        }
        Ok::<(), Bad>(())
    })?;
    Ok(Seen {
        sig: mix(seed, at_once as u64),
        nontrivial: true,
        sample: Some(json!({"operations": n, "at_once": at_once})),
        counts: vec![("tasks", n)],
    })
}

fn through_runtime(seed: u64, _: &Ctx) -> Res {
    let virt = seed % 3 != 0;
    let go = async move {
        let mut r = Rng::new(seed);
        let workers = r.range(1, 6) as usize;
        let ser = paladin_config(&mut r);
        let rt: &'static paladin::runtime::Runtime = Box::leak(Box::new(runtime(workers, ser).await?));
        let ops = remotes();
        let jobs = r.range(2, 6);
        let mut hs = vec![];
        let mut sig = seed;
        let mut tags = vec![];
        let mut total = 0;
        for _ in 0..jobs {
            let h = *r.pick(&ops);
            let k = r.u64();
            let n = r.range(1, 8);
            total += n;
            let inputs: Vec<(Meta, u64)> = (0..n).map(|i| (Meta { id: i, ..meta(&mut r) }, r.u64())).collect();
            sig = mix(sig, mix(h.tag as u64, k));
            tags.push(h.tag);
            let remote = h.remote.ok_or(Bad::Inconclusive("no remote".into()))?;
            hs.push((h, k, inputs.clone(), tokio::spawn(remote(rt, k, inputs))));
        }
        for (h, k, inputs, t) in hs {
            let got = within(&format!("a job of operation {}", h.tag), t).await?.map_err(|e| Bad::Inconclusive(e.to_string()))??;
            let mut by_id: HashMap<u64, (Meta, Out)> = HashMap::new();
            for (m, o) in got {
                let id = m.id;
                ensure!(by_id.insert(id, (m, o)).is_none(), "operation {}: two results for task {id}", h.tag);
            }
            for (m, x) in inputs {
                let Some(got) = by_id.remove(&m.id) else {
                    return Err(format!("operation {}: no result for task {}", h.tag, m.id).into());
                };
                check(&Call { h, k, x, meta: m, s: Serializer::default() }, Ok(got))?;
            }
        }
        // Safety: nothing borrows the runtime any more.
        drop(unsafe { Box::from_raw(rt as *const _ as *mut paladin::runtime::Runtime) });
        Ok(Seen {
            sig,
            nontrivial: true,
            sample: Some(json!({"workers": workers, "jobs": tags, "tasks": total})),
            counts: vec![("tasks", total)],
        })
    };
    if virt {
        vt(go)
    } else {
        mt(3, go)
    }
}

fn paladin_config(r: &mut Rng) -> paladin::config::Serializer {
    any_serializer(r)
}

/// A task naming an operation that the worker does not have.
fn unknown(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let ops = everything();
    let c = call(*r.pick(&ops), &mut r);
    let mut task = (c.h.task)(c.k, c.x, "r".into(), c.meta.clone(), c.s)?;
    let known: std::collections::HashSet<_> = ops
        .iter()
        .map(|h| Ok((h.task)(0, 0, String::new(), c.meta.clone(), c.s)?.operation_id))
        .collect::<anyhow::Result<_>>()?;
    ensure!(known.len() == ops.len(), "{} operations have only {} identifiers", ops.len(), known.len());
    let original = task.operation_id;
    let bit = r.below(64) as u32;
    task.operation_id = match r.below(5) {
        0 => original.wrapping_add(1),
        1 => original.wrapping_sub(1),
        2 => original ^ (1u64.checked_shl(bit).unwrap_or(1) as u64),
        3 => r.u64() as _,
        _ => 0,
    };
    if known.contains(&task.operation_id) {
        return Ok(Seen { sig: seed, ..Default::default() });
    }
    let id = task.operation_id;
    let out = vt(async { task.remote_execute(None).await });
    if let Ok(o) = out {
        let what = (c.h.output)(o).map(|x| format!("{:?}", x.1)).unwrap_or_else(|e| e.to_string());
        return Err(format!("a task naming operation {id:x}, which does not exist, was executed: {what}").into());
    }
    Ok(Seen {
        sig: mix(seed, id as u64),
        nontrivial: true,
        sample: Some(json!({"operation_id": format!("{id:x}")})),
        counts: vec![("refused", 1)],
    })
}
