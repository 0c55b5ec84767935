//! Operations defined in a crate other than the one that runs the workers:
//! many of them, of the same names.
use std::{future::Future, pin::Pin};

use paladin::{
    operation::{Operation, Result},
    serializer::Serializer,
    task::{AnyTask, Task, TaskOutput},
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};

/// (which operation ran, its constructor argument, its input).
pub type Out = (u32, u64, u64);

/// Metadata of the tasks.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Meta {
    pub id: u64,
    pub text: String,
    pub bytes: Vec<u8>,
    pub pair: Option<(i32, bool)>,
}

type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// What can be done with an operation whose type the caller does not know.
#[derive(Clone, Copy)]
pub struct Handle {
    pub tag: u32,
    pub task: fn(u64, u64, String, Meta, Serializer) -> anyhow::Result<AnyTask>,
    pub output: fn(paladin::task::AnyTaskOutput) -> anyhow::Result<(Meta, Out)>,
    /// Through a runtime: the outputs of all the tasks, with their metadata.
    pub remote: Option<Remote>,
}

pub type Remote = fn(&'static paladin::runtime::Runtime, u64, Vec<(Meta, u64)>) -> Boxed<anyhow::Result<Vec<(Meta, Out)>>>;

pub fn handle<Op: Operation<Input = u64, Output = Out> + 'static>(tag: u32, make: impl Fn(u64) -> Op + Copy) -> Handle
where
    Op: Make,
{
    _ = make;
    Handle { tag, task: task::<Op>, output: output::<Op>, remote: None }
}

pub fn with_remote<Op: Operation<Input = u64, Output = Out> + Make + 'static>(
    tag: u32,
    make: impl Fn(u64) -> Op + Copy,
) -> Handle {
    Handle { remote: Some(remote::<Op>), ..handle(tag, make) }
}

pub trait Make {
    fn make(k: u64) -> Self;
}

fn task<Op: Operation<Input = u64, Output = Out> + Make>(
    k: u64,
    input: u64,
    routing_key: String,
    metadata: Meta,
    s: Serializer,
) -> anyhow::Result<AnyTask> {
    Task { routing_key, metadata, op: &Op::make(k), input }.as_any_task(s)
}

fn output<Op: Operation<Input = u64, Output = Out>>(o: paladin::task::AnyTaskOutput) -> anyhow::Result<(Meta, Out)> {
    let o: TaskOutput<Op, Meta> = o.try_into()?;
    Ok((o.metadata, o.output))
}

fn remote<Op: Operation<Input = u64, Output = Out> + Make + 'static>(
    rt: &'static paladin::runtime::Runtime,
    k: u64,
    inputs: Vec<(Meta, u64)>,
) -> Boxed<anyhow::Result<Vec<(Meta, Out)>>> {
    use futures::StreamExt;
    use paladin::{acker::Acker, queue::Publisher};
    Box::pin(async move {
        let op = Op::make(k);
        let (routing_key, sender, mut receiver) = rt.lease_coordinated_task_channel::<Op, Meta>().await?;
        for (metadata, input) in inputs {
            sender.publish(&Task { routing_key: routing_key.clone(), metadata, op: &op, input }).await?;
        }
        sender.close().await?;
        let mut out = vec![];
        while let Some((r, acker)) = receiver.next().await {
            acker.ack().await?;
            let r = r?;
            out.push((r.metadata, r.output));
        }
        Ok(out)
    })
}

#[macro_export]
macro_rules! op {
    ($name:ident, $tag:expr) => {
        #[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
        pub struct $name {
            pub k: u64,
        }
        impl Operation for $name {
            type Input = u64;
            type Output = $crate::Out;
            fn execute(&self, x: u64, _: AbortSignal) -> Result<$crate::Out> {
                Ok(($tag, self.k, x))
            }
        }
        impl $crate::Make for $name {
            fn make(k: u64) -> Self {
                $name { k }
            }
        }
    };
}

macro_rules! many {
    ($($m:ident $tag:literal),* $(,)?) => {
        $(pub mod $m {
            use super::*;
            op!(Same, $tag);
        })*
        pub fn many() -> Vec<Handle> {
            vec![$(handle($tag, |k| $m::Same { k })),*]
        }
    };
}

many! {
    m0 0, m1 1, m2 2, m3 3, m4 4, m5 5, m6 6, m7 7, m8 8, m9 9, m10 10, m11 11, m12 12, m13 13, m14 14,
    m15 15, m16 16, m17 17, m18 18, m19 19, m20 20, m21 21, m22 22, m23 23, m24 24, m25 25, m26 26, m27
    27, m28 28, m29 29, m30 30, m31 31, m32 32, m33 33, m34 34, m35 35, m36 36, m37 37, m38 38, m39 39,
    m40 40, m41 41, m42 42, m43 43, m44 44, m45 45, m46 46, m47 47, m48 48, m49 49, m50 50, m51 51, m52
    52, m53 53, m54 54, m55 55, m56 56, m57 57, m58 58, m59 59, m60 60, m61 61, m62 62, m63 63, m64 64,
    m65 65, m66 66, m67 67, m68 68, m69 69, m70 70, m71 71, m72 72, m73 73, m74 74, m75 75, m76 76, m77
    77, m78 78, m79 79, m80 80, m81 81, m82 82, m83 83, m84 84, m85 85, m86 86, m87 87, m88 88, m89 89,
    m90 90, m91 91, m92 92, m93 93, m94 94, m95 95,
}

/// Some of them, to be run through a runtime.
pub fn some() -> Vec<Handle> {
    vec![
        with_remote(0, |k| m0::Same { k }),
        with_remote(1, |k| m1::Same { k }),
        with_remote(50, |k| m50::Same { k }),
        with_remote(51, |k| m51::Same { k }),
        with_remote(95, |k| m95::Same { k }),
    ]
}

/// Of the same name as each other, in the bodies of functions of one module.
pub fn in_bodies() -> Vec<Handle> {
    fn a() -> Handle {
        op!(Local, 1001);
        with_remote(1001, |k| Local { k })
    }
    fn b() -> Handle {
        op!(Local, 1002);
        with_remote(1002, |k| Local { k })
    }
    fn c() -> Handle {
        op!(Same, 1003);
        with_remote(1003, |k| Same { k })
    }
    vec![a(), b(), c()]
}

/// Of the same name and module path suffix as operations of other crates.
pub mod ops {
    use super::*;
    op!(Step, 1010);
    op!(Same, 1011);
}

pub fn named() -> Vec<Handle> {
    vec![with_remote(1010, |k| ops::Step { k }), with_remote(1011, |k| ops::Same { k })]
}

paladin::registry!();
