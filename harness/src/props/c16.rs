//! C16: values survive serialization unchanged; malformed bytes give errors.
use std::{
    collections::{BTreeMap, HashMap},
    fmt::Debug,
    panic::{catch_unwind, AssertUnwindSafe},
};

use bytes::Bytes;
use paladin::{
    operation::Operation,
    runtime::CommandIpc,
    serializer::Serializer,
    task::{AnyTask, AnyTaskOutput, AnyTaskResult, Task, TaskOutput},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;

use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    env::vt,
    ops::{Act, Item, Seg, Step},
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "one case is a generated value of one of about 30 types (all kinds of the serde data model; the library's task, \
               output, result and command envelopes with arbitrary keys and payloads) encoded and decoded with one of the \
               serializers, with its strict prefixes; or bytes (random, bit-flipped, truncated, spliced, mislabelled) decoded \
               as such a type; or a task carried in an envelope of another serializer than its own. Non-trivial if the \
               encoding is at least two bytes; distinct by type, serializer and bytes",
        families: vec![
            Family { name: "values", run: values, quick: 40_000, thorough: 20, threads: 6, secs: 20, min: 100 },
            Family { name: "envelopes", run: envelopes, quick: 20_000, thorough: 20, threads: 6, secs: 20, min: 100 },
            Family { name: "malformed", run: malformed, quick: 60_000, thorough: 30, threads: 6, secs: 20, min: 100 },
            Family { name: "tasks", run: tasks, quick: 4000, thorough: 20, threads: 6, secs: 20, min: 50 },
        ],
        assumptions: vec![
            "values whose serde representation is faithful in the format: no nested options and no Option<()> (CBOR writes both \
             layers as null), no NaN payloads",
        ],
        allowed_panics: vec![],
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Unit;
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct New(u64);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Tup(i8, String, [u16; 3]);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum V {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    W(u128, i128),
    F(f64),
    G(f32),
    C(char),
    S(String),
    B(Bytes),
    L(Vec<V>),
    M(BTreeMap<String, V>),
    K(BTreeMap<i32, bool>),
    T(Box<(V, Unit, New, Tup)>),
    R { a: Option<Box<V>>, b: (), c: Vec<u8> },
    Item(Item),
    Seg(Seg),
    Act(Act),
}

fn u64v(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.u64() >> r.below(64),
        1 => *r.pick(&[0, 1, 23, 24, 127, 128, 255, 256, 16383, 16384, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX]),
        2 => r.below(300),
        _ => r.u64(),
    }
}

pub fn text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => *r.pick(&[23u64, 24, 127, 128, 255, 256]),
        2 => r.below(400),
        _ => r.below(12),
    };
    (0..n)
        .map(|_| match r.below(6) {
            0 => *r.pick(&['\0', '\n', 'ü', '√', '😀', '\u{10FFFF}', '"', '\\']),
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

pub fn blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => *r.pick(&[23, 24, 127, 128, 255, 256, 65535, 65536]),
        2 => r.below(4000),
        _ => r.below(20),
    };
    if r.chance(20) {
        vec![*r.pick(&[0, 0xff, 0x80, 0x1c]); n as usize]
    } else {
        r.bytes(n as usize)
    }
}

fn f64v(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, 1.0, -1.5, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 65504.0, 65505.0, 0.1, 5e-324]),
        1 => r.below(1000) as f64 / 8.0,
        _ => {
            let x = f64::from_bits(r.u64());
            if x.is_nan() {
                0.25
            } else {
                x
            }
        }
    }
}

fn act(r: &mut Rng, d: u32) -> Act {
    match r.below(7) {
        0 => Act::Fatal { ignore: r.chance(50), msg: text(r) },
        1 => Act::Panic,
        2 if d > 0 => Act::Transient {
            fails: r.u64() as u32,
            retries: u64v(r) as u32,
            after_ms: r.below(300) as u32,
            ignore: r.chance(50),
            msg: text(r),
            then: Box::new(act(r, d - 1)),
        },
        3 => Act::Sleep(u64v(r) as u32),
        4 => Act::Gate,
        _ => Act::None,
    }
}

fn item(r: &mut Rng) -> Item {
    Item {
        run: u64v(r),
        idx: u64v(r),
        stage: u64v(r) as u32,
        val: u64v(r),
        act: act(r, 3),
        act_stage: u64v(r) as u32,
        pad: blob(r),
    }
}

fn seg(r: &mut Rng) -> Seg {
    let n = r.below(40);
    Seg { run: u64v(r), items: (0..n).map(|_| u64v(r)).collect(), act: act(r, 2), pad: blob(r) }
}

fn value(r: &mut Rng, d: u32) -> V {
    match r.below(if d == 0 { 13 } else { 22 }) {
        0 => V::Null,
        1 => V::Bool(r.chance(50)),
        2 => V::U(u64v(r)),
        3 => V::I(u64v(r) as i64),
        4 => V::W(
            ((u64v(r) as u128) << (r.below(2) * 64)) | u64v(r) as u128,
            (((u64v(r) as u128) << 64) | u64v(r) as u128) as i128 >> r.below(128),
        ),
        5 => V::F(f64v(r)),
        6 => V::G(f64v(r) as f32),
        7 => V::C(text(r).chars().next().unwrap_or('x')),
        8 => V::S(text(r)),
        9 => V::B(blob(r).into()),
        10 => V::Item(item(r)),
        11 => V::Seg(seg(r)),
        12 => V::Act(act(r, 4)),
        13..=15 => {
            let n = r.below(5);
            V::L((0..n).map(|_| value(r, d - 1)).collect())
        }
        16 | 17 => {
            let n = r.below(5);
            V::M((0..n).map(|_| (text(r), value(r, d - 1))).collect())
        }
        18 => {
            let n = r.below(6);
            V::K((0..n).map(|_| (u64v(r) as i32, r.chance(50))).collect())
        }
        19 => V::T(Box::new((
            value(r, d - 1),
            Unit,
            New(u64v(r)),
            Tup(u64v(r) as i8, text(r), [u64v(r) as u16, 0, u64v(r) as u16]),
        ))),
        _ => {
            let n = r.below(4);
            V::R {
                a: if r.chance(50) { Some(Box::new(value(r, d - 1))) } else { None },
                b: (),
                c: vec![7; n as usize],
            }
        }
    }
}

pub fn sers() -> [Serializer; 2] {
    [Serializer::Postcard, Serializer::Cbor]
}

/// The encoding of a value that is decoded to an equal one, and whose strict
/// prefixes are rejected.
fn round<T: Serialize + DeserializeOwned + Debug>(
    s: Serializer,
    x: &T,
    eq: impl Fn(&T, &T) -> bool,
    r: &mut Rng,
) -> Result<(Bytes, u64), Bad> {
    let name = std::any::type_name::<T>();
    let b = s.to_bytes(x).map_err(|e| Bad::Violation(format!("{s}: {name} can't be encoded: {e:#}")))?;
    let y: T = s
        .from_bytes(&b)
        .map_err(|e| Bad::Violation(format!("{s}: the encoding of {name} can't be decoded: {e:#}: {}", cut(x))))?;
    ensure!(eq(x, &y), "{s}: {name} {} was decoded as {}", cut(x), cut(&y));
    let b2 = s.to_bytes(&y).map_err(|e| Bad::Violation(format!("{s}: {name} can't be encoded again: {e:#}")))?;
    ensure!(b2.len() == b.len(), "{s}: {name} {} is encoded as {} bytes, and as {} after decoding", cut(x), b.len(), b2.len());
    let mut prefixes = 0;
    let mut check = |n: usize| -> Result<(), Bad> {
        prefixes += 1;
        let p = s.from_bytes::<T>(&b[..n]);
        ensure!(
            p.is_err(),
            "{s}: the first {n} of {} bytes of the encoding of {name} {} were decoded as {}",
            b.len(),
            cut(x),
            cut(&p.unwrap())
        );
        Ok(())
    };
    if b.len() <= 40 {
        for n in 0..b.len() {
            check(n)?;
        }
    } else {
        for _ in 0..12 {
            check(r.usize(b.len()))?;
        }
        for n in [0, 1, b.len() - 1, b.len() - 2] {
            check(n)?;
        }
    }
    Ok((b, prefixes))
}

fn cut<T: Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(300).collect()
}

fn values(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let mut sig = 0;
    let mut prefixes = 0;
    let mut kind = String::new();
    let mut total = 0;
    macro_rules! rt {
        ($x:expr) => {{
            let x = $x;
            for s in sers() {
                let (b, p) = round(s, &x, |a, b| a == b, &mut r)?;
                sig = mix(sig, b.iter().fold(b.len() as u64, |h, x| mix(h, *x as u64)));
                prefixes += p;
                total += b.len();
            }
            kind = cut(&x);
        }};
    }
    match r.below(34) {
        0 => rt!(u64v(&mut r) as u8),
        1 => rt!(u64v(&mut r) as i16),
        2 => rt!(u64v(&mut r)),
        3 => rt!(u64v(&mut r) as i64),
        4 => rt!(u64v(&mut r) as usize),
        5 => rt!(text(&mut r)),
        6 => rt!(blob(&mut r)),
        7 => rt!(Bytes::from(blob(&mut r))),
        8 => rt!(Some(u64v(&mut r))),
        9 => rt!(None::<String>),
        10 => rt!((u64v(&mut r) as u32, text(&mut r), Some(f64v(&mut r)))),
        11 => rt!(()),
        12 => rt!(Unit),
        13 => rt!(f64v(&mut r)),
        14 => rt!(item(&mut r)),
        15 => rt!(seg(&mut r)),
        16 => rt!(Step(u64v(&mut r)).0),
        17 => {
            let n = r.below(30);
            rt!((0..n).map(|_| (text(&mut r), u64v(&mut r))).collect::<HashMap<_, _>>())
        }
        18 => {
            let n = r.below(30);
            rt!((0..n).map(|_| text(&mut r)).collect::<std::collections::BTreeSet<_>>())
        }
        19 => {
            // Deeply nested, but within what the formats support.
            let mut x = V::U(u64v(&mut r));
            for _ in 0..r.below(40) {
                x = V::L(vec![x]);
            }
            rt!(x)
        }
        20 => rt!(if r.chance(50) { Ok::<u32, String>(u64v(&mut r) as u32) } else { Err(text(&mut r)) }),
        21 => rt!([u64v(&mut r); 7]),
        22 => {
            let n = *r.pick(&[1000u64, 70_000, 300_000]);
            rt!(r.bytes(n as usize))
        }
        _ => rt!(value(&mut r, 4)),
    }
    Ok(Seen {
        sig,
        nontrivial: total > 3,
        sample: Some(json!({"value": kind, "bytes": total})),
        counts: vec![("round_trips", 2), ("prefixes", prefixes), ("bytes", total as u64)],
    })
}

fn ser_eq(a: Serializer, b: Serializer) -> bool {
    a.to_string() == b.to_string()
}

fn task_eq(a: &AnyTask, b: &AnyTask) -> bool {
    a.routing_key == b.routing_key
        && a.metadata == b.metadata
        && a.op == b.op
        && a.operation_id == b.operation_id
        && a.input == b.input
        && ser_eq(a.serializer, b.serializer)
}

fn output_eq(a: &AnyTaskOutput, b: &AnyTaskOutput) -> bool {
    a.metadata == b.metadata && a.output == b.output && ser_eq(a.serializer, b.serializer)
}

fn result_eq(a: &AnyTaskResult, b: &AnyTaskResult) -> bool {
    match (a, b) {
        (AnyTaskResult::Ok(a), AnyTaskResult::Ok(b)) => output_eq(a, b),
        (AnyTaskResult::Err(a), AnyTaskResult::Err(b)) => a == b,
        _ => false,
    }
}

fn command_eq(a: &CommandIpc, b: &CommandIpc) -> bool {
    let CommandIpc::Abort { routing_key: x } = a;
    let CommandIpc::Abort { routing_key: y } = b;
    x == y
}

fn any_ser(r: &mut Rng) -> Serializer {
    *r.pick(&sers())
}

fn any_task(r: &mut Rng) -> Result<AnyTask, Bad> {
    let mut t = Task { routing_key: text(r), metadata: value(r, 2), op: &Step(u64v(r)), input: item(r) }
        .as_any_task(any_ser(r))?;
    if r.chance(50) {
        t.metadata = blob(r).into();
        t.op = blob(r).into();
        t.input = blob(r).into();
    }
    Ok(t)
}

fn any_output(r: &mut Rng) -> AnyTaskOutput {
    AnyTaskOutput { metadata: blob(r).into(), output: blob(r).into(), serializer: any_ser(r) }
}

fn envelopes(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let s = any_ser(&mut r);
    let kind = r.below(5);
    let (b, p) = match kind {
        0 => round(s, &any_task(&mut r)?, task_eq, &mut r)?,
        1 => round(s, &any_output(&mut r), output_eq, &mut r)?,
        2 => {
            let x = if r.chance(50) { AnyTaskResult::Ok(any_output(&mut r)) } else { AnyTaskResult::Err(text(&mut r)) };
            round(s, &x, result_eq, &mut r)?
        }
        3 => round(s, &CommandIpc::Abort { routing_key: text(&mut r) }, command_eq, &mut r)?,
        _ => {
            let x: TaskOutput<Step, V> = TaskOutput { metadata: value(&mut r, 3), output: item(&mut r) };
            round(s, &x, |a, b| a.metadata == b.metadata && a.output == b.output, &mut r)?
        }
    };
    Ok(Seen {
        sig: b.iter().fold(kind, |h, x| mix(h, *x as u64)),
        nontrivial: b.len() > 1,
        sample: Some(json!({"envelope": (["task", "output", "result", "command", "typed output"][kind as usize]), "serializer": s.to_string(), "bytes": b.len()})),
        counts: vec![("round_trips", 1), ("prefixes", p), ("bytes", b.len() as u64)],
    })
}

fn malformed(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let s = any_ser(&mut r);
    let base: Vec<u8> = match r.below(6) {
        0 => blob(&mut r),
        1 => any_ser(&mut r).to_bytes(&any_task(&mut r)?)?.to_vec(),
        2 => s.to_bytes(&AnyTaskResult::Ok(any_output(&mut r)))?.to_vec(),
        3 => s.to_bytes(&CommandIpc::Abort { routing_key: text(&mut r) })?.to_vec(),
        4 => s.to_bytes(&item(&mut r))?.to_vec(),
        _ => s.to_bytes(&value(&mut r, 3))?.to_vec(),
    };
    let mut b = base;
    for _ in 0..r.below(4) {
        if b.is_empty() {
            break;
        }
        let n = b.len();
        match r.below(7) {
            0 => b[r.usize(n)] ^= 1 << r.below(8),
            1 => b[r.usize(n)] = *r.pick(&[0, 0x7f, 0x80, 0xff, 0x1b, 0x5f, 0x7b, 0x9b, 0xbb, 0xbf, 0xf6, 0xf7]),
            2 => b.truncate(r.usize(n)),
            3 => b.insert(r.usize(n), r.u64() as u8),
            4 => {
                // A length that is far too large.
                let at = r.usize(n);
                let huge: &[u8] = if r.chance(50) { &[0xff; 9] } else { &[0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff] };
                b.splice(at..at, huge.iter().copied());
            }
            5 => {
                let i = r.usize(n);
                b.remove(i);
            }
            _ => {
                // Deep nesting.
                let at = r.usize(n);
                let deep = vec![*r.pick(&[0x81u8, 0x9f, 0xa1, 0xc1, 0x01]); 3000];
                b.splice(at..at, deep);
            }
        }
    }
    let mut oks = 0u64;
    let mut errs = 0u64;
    macro_rules! de {
        ($($t:ty),*) => {$(
            match catch_unwind(AssertUnwindSafe(|| s.from_bytes::<$t>(&b).map(drop))) {
                Ok(Ok(())) => oks += 1,
                Ok(Err(_)) => errs += 1,
                Err(_) => return Err(format!(
                    "{s}: decoding {} bytes as {} panicked: {:02x?}", b.len(), stringify!($t), &b[..b.len().min(200)]
                ).into()),
            }
        )*};
    }
    de!(
        AnyTask, AnyTaskOutput, AnyTaskResult, CommandIpc, TaskOutput<Step, V>, V, Item, Seg, Act, Unit, New, Tup, u8, i64,
        u128, f64, bool, char, String, Vec<u8>, Bytes, Vec<String>, Option<u32>, (), (u8, String),
        HashMap<String, V>, BTreeMap<u64, Vec<u8>>, [u32; 5], Step
    );
    // Decoding as part of executing a task.
    if r.chance(30) {
        let mut t = any_task(&mut r)?;
        let field = r.below(2);
        match field {
            0 => t.op = b.clone().into(),
            _ => t.input = b.clone().into(),
        }
        let out = vt(async { t.remote_execute(None).await });
        if out.is_ok() {
            oks += 1
        } else {
            errs += 1
        }
    }
    Ok(Seen {
        sig: b.iter().fold(b.len() as u64, |h, x| mix(h, *x as u64)),
        nontrivial: b.len() > 1,
        sample: Some(json!({"serializer": s.to_string(), "bytes": b.len(), "starts": format!("{:02x?}", &b[..b.len().min(24)]), "accepted_as": oks})),
        counts: vec![("decoded", oks), ("rejected", errs)],
    })
}

/// A task in an envelope: each part is encoded with the task's own serializer.
fn tasks(seed: u64, _: &Ctx) -> Res {
    let mut r = Rng::new(seed);
    let (own, outer, outer2) = (any_ser(&mut r), any_ser(&mut r), any_ser(&mut r));
    let k = u64v(&mut r);
    let mut input = item(&mut r);
    input.act = Act::None;
    input.run = 0;
    input.stage %= 1000;
    let (key, metadata) = (text(&mut r), value(&mut r, 3));
    let want = crate::ops::expected(1, k, &input);
    let task = Task { routing_key: key.clone(), metadata: metadata.clone(), op: &Step(k), input: input.clone() };
    let any = task.as_any_task(own)?;
    let what = format!("a {own} task in a {outer} envelope");
    ensure!(any.routing_key == key, "{what}: routing key {:?} became {:?}", key, any.routing_key);
    ensure!(ser_eq(any.serializer, own), "{what} names {}", any.serializer);
    let bytes = outer.to_bytes(&any)?;
    let any: AnyTask = outer.from_bytes(&bytes)?;
    ensure!(any.routing_key == key && ser_eq(any.serializer, own), "{what}: routing key or serializer changed");
    let op: Step = own.from_bytes(&any.op).map_err(|e| Bad::Violation(format!("{what}: the operation is not encoded with it: {e:#}")))?;
    let inp: Item = own.from_bytes(&any.input).map_err(|e| Bad::Violation(format!("{what}: the input is not encoded with it: {e:#}")))?;
    let md: V = own.from_bytes(&any.metadata).map_err(|e| Bad::Violation(format!("{what}: the metadata is not encoded with it: {e:#}")))?;
    ensure!(op.0 == k && inp == input && md == metadata, "{what}: operation, input or metadata changed");
    // The helpers of operations, too.
    ensure!(op.as_bytes(own).is_ok_and(|b| b == any.op), "{what}: the operation encodes itself differently");
    ensure!(
        Step::from_bytes(own, &any.op).is_ok_and(|o| o.0 == k) && op.input_from_bytes(own, &any.input).is_ok_and(|i| i == input),
        "{what}: the operation decodes differently"
    );
    let direct = op.execute_as_bytes(own, &any.input, None).map_err(|e| Bad::Violation(format!("{what}: {e:#}")))?;
    ensure!(own.from_bytes::<Item>(&direct).is_ok_and(|o| o == want), "{what}: executing as bytes gives another output");
    let out = vt(async { any.remote_execute(None).await }).map_err(|e| Bad::Violation(format!("{what}: {e:#}")))?;
    ensure!(ser_eq(out.serializer, own), "{what}: the output names {}", out.serializer);
    ensure!(
        own.from_bytes::<Item>(&out.output).is_ok_and(|o| o == want) && own.from_bytes::<V>(&out.metadata).is_ok_and(|m| m == metadata),
        "{what}: the output's parts are not what the task's serializer encodes"
    );
    let b = outer2.to_bytes(&AnyTaskResult::Ok(out))?;
    let res: AnyTaskResult = outer2.from_bytes(&b)?;
    let typed: TaskOutput<Step, V> = res.into_task_result()?;
    ensure!(typed.metadata == metadata && typed.output == want, "{what}: the typed result differs");
    // An error keeps its message.
    let msg = text(&mut r);
    let b = outer2.to_bytes(&AnyTaskResult::Err(msg.clone()))?;
    let res: AnyTaskResult = outer2.from_bytes(&b)?;
    let e = match res.into_task_result::<Step, V>() {
        Ok(_) => return Err("an error result became a success".into()),
        Err(e) => e.to_string(),
    };
    ensure!(e == msg, "the error message {msg:?} became {e:?}");
    // Parts that the named serializer can't decode give an error.
    Ok(Seen {
        sig: bytes.iter().fold(1, |h, x| mix(h, *x as u64)),
        nontrivial: true,
        sample: Some(json!({"task_serializer": own.to_string(), "envelope": outer.to_string(), "bytes": bytes.len()})),
        counts: vec![("tasks", 1), ("mixed_envelopes", (!ser_eq(own, outer)) as u64)],
    })
}
