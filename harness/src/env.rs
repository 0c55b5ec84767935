//! Execution environments: virtual time (an exact oracle for "never
//! completes"), real time, and runtimes under test.
use std::{
    future::Future,
    sync::{Arc, Mutex},
    time::Duration,
};

use paladin::{
    config::{Config, Runtime as RuntimeKind, Serializer},
    operation::marker::Marker,
    runtime::Runtime,
};

use crate::{
    broker::Broker,
    driver::Bad,
    props::amqp::{self, Worker},
    rng::Rng,
};

/// Virtual time that only passes when nothing can make progress: the timers of
/// the system under test are far shorter.
pub const NEVER: Duration = Duration::from_secs(3600);

/// Run a scenario on a single-threaded executor with virtual time.
pub fn vt<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    let r = rt.block_on(f);
    rt.shutdown_background();
    r
}

/// Run a scenario on a multi-threaded executor in real time.
pub fn mt<T: Send + 'static>(
    threads: usize,
    f: impl Future<Output = T> + Send + 'static,
) -> T {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .enable_all()
        .build()
        .unwrap();
    let r = rt.block_on(async move { tokio::spawn(f).await });
    rt.shutdown_background();
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e.into_panic()),
    }
}

/// In virtual time: the future's output, or a violation if it can't complete.
pub async fn within<T>(what: &str, f: impl Future<Output = T>) -> Result<T, Bad> {
    tokio::time::timeout(NEVER, f)
        .await
        .map_err(|_| Bad::Violation(format!("{what} never completes: nothing can make progress any more")))
}

pub fn config(workers: usize, serializer: Serializer) -> Config {
    Config {
        serializer,
        runtime: RuntimeKind::InMemory,
        num_workers: Some(workers),
        amqp_uri: None,
        task_bus_routing_key: None,
    }
}

pub fn any_serializer(rng: &mut Rng) -> Serializer {
    if rng.chance(50) {
        Serializer::Postcard
    } else {
        Serializer::Cbor
    }
}

type Deployment = (Arc<Broker>, Vec<Worker>);

tokio::task_local! {
    /// The deployments of a scenario that runs over a broker.
    static BROKERS: Mutex<(Rng, Vec<Deployment>)>;
}

/// Run a scenario in real time, with runtimes that use a broker.
pub fn over_amqp<T: Send + 'static>(seed: u64, f: impl Future<Output = T> + Send + 'static) -> T {
    let brokers = Mutex::new((Rng::new(seed ^ 0xa39b), vec![]));
    mt(1 + (seed % 4) as usize, BROKERS.scope(brokers, f))
}

/// A runtime: in-memory, or a leader and workers at a broker of their own.
pub async fn runtime(workers: usize, serializer: Serializer) -> Result<Runtime, Bad> {
    if let Ok(mut rng) = BROKERS.try_with(|b| {
        let rng = &mut b.lock().unwrap().0;
        Rng::new(rng.u64())
    }) {
        let broker = amqp::broker(&mut rng)?;
        let key = *rng.pick(&[None, Some("tasks")]);
        let first = rng.chance(50);
        let mut leader = None;
        if first {
            leader = Some(amqp::leader(&broker, serializer, key).await?);
        }
        let mut all = vec![];
        for _ in 0..workers {
            all.push(amqp::worker(&broker, serializer, key).await?);
        }
        if !first {
            leader = Some(amqp::leader(&broker, serializer, key).await?);
        }
        BROKERS.with(|b| b.lock().unwrap().1.push((broker, all)));
        return Ok(leader.unwrap());
    }
    Runtime::from_config(&config(workers, serializer), Marker)
        .await
        .map_err(|e| Bad::Violation(format!("in-memory runtime not created: {e:#}")))
}
