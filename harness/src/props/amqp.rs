//! Shared by the monitors of the AMQP runtime: deployments on a fake broker.
use std::{
    future::Future,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    time::Duration,
};

use paladin::{
    config::{Config, Runtime as RuntimeKind, Serializer},
    operation::marker::Marker,
    queue::amqp::{AMQPConnection, AMQPConnectionOptions},
    runtime::{Runtime, WorkerRuntime},
};

use crate::{
    broker::{Broker, Options},
    driver::Bad,
    rng::Rng,
};

/// Seconds without any event that count as a standstill. (No wait of the
/// library is in the way, unless a scenario aborts something.)
pub const STILL: u64 = 25;

pub fn broker(rng: &mut Rng) -> Result<Arc<Broker>, Bad> {
    let o = Options {
        seed: rng.u64(),
        jitter: *rng.pick(&[0, 0, 100, 600, 2000]),
        frame_max: *rng.pick(&[4096, 131_072, 131_072]),
    };
    Broker::start(o).map(Arc::new).map_err(|e| Bad::Inconclusive(format!("no broker: {e}")))
}

/// The future's output, or a violation if it doesn't complete although nothing
/// happens any more.
pub async fn until<T>(broker: &Arc<Broker>, what: &str, f: impl Future<Output = T>) -> Result<T, Bad> {
    let (mut n, mut still) = (0, 0);
    tokio::pin!(f);
    loop {
        match tokio::time::timeout(Duration::from_millis(100), &mut f).await {
            Ok(x) => return Ok(x),
            Err(_) => {
                let now = broker.state().log.len();
                still = if now == n { still + 1 } else { 0 };
                n = now;
                if still >= STILL * 10 {
                    let log = broker.log();
                    if let Ok(path) = std::env::var("PV_DUMP") {
                        let all: Vec<String> = log.iter().map(|e| format!("{}: {:?}", e.conn, e.ev)).collect();
                        _ = std::fs::write(path, all.join("\n"));
                    }
                    let tail: Vec<String> =
                        log[log.len().saturating_sub(8)..].iter().map(|e| format!("{}: {:?}", e.conn, e.ev)).collect();
                    return Err(Bad::Violation(format!(
                        "{what} does not complete: nothing happened at the broker for {STILL} s; last events {tail:?}"
                    )));
                }
            }
        }
    }
}

/// Waits on another thread until the condition holds at the broker.
pub async fn at_broker(
    broker: &Arc<Broker>,
    what: &str,
    mut cond: impl FnMut(&crate::broker::State) -> bool,
) -> Result<(), Bad> {
    until(broker, what, async {
        while !cond(&broker.state()) {
            tokio::time::sleep(Duration::from_micros(500)).await;
        }
    })
    .await
}

pub fn config(broker: &Broker, serializer: Serializer, key: Option<&str>) -> Config {
    Config {
        serializer,
        runtime: RuntimeKind::Amqp,
        num_workers: None,
        amqp_uri: Some(broker.uri()),
        task_bus_routing_key: key.map(|k| k.to_string()),
    }
}

pub async fn leader(b: &Broker, serializer: Serializer, key: Option<&str>) -> Result<Runtime, Bad> {
    Runtime::from_config(&config(b, serializer, key), Marker)
        .await
        .map_err(|e| Bad::Violation(format!("no leader: {e:#}")))
}

pub struct Worker {
    /// The ordinal of its connection.
    pub conn: u64,
    pub ended: Arc<AtomicBool>,
    pub handle: tokio::task::JoinHandle<anyhow::Result<()>>,
}

impl Drop for Worker {
    fn drop(&mut self) {
        self.handle.abort();
    }
}

/// Starts a worker; it listens when this returns. (Connections must not be
/// made concurrently.)
pub async fn worker(b: &Arc<Broker>, serializer: Serializer, key: Option<&str>) -> Result<Worker, Bad> {
    let conn = b.connections();
    let rt = WorkerRuntime::from_config(&config(b, serializer, key), Marker)
        .await
        .map_err(|e| Bad::Violation(format!("no worker: {e:#}")))?;
    let ended = Arc::new(AtomicBool::new(false));
    let e = ended.clone();
    let handle = tokio::spawn(async move {
        let r = rt.main_loop().await;
        e.store(true, Ordering::SeqCst);
        r
    });
    at_broker(b, "a worker's start", |st| {
        st.log.iter().filter(|e| e.conn == conn && matches!(e.ev, crate::broker::Ev::Consume { .. })).count() >= 2
            || !st.open(conn)
    })
    .await?;
    Ok(Worker { conn, ended, handle })
}

pub async fn connect(b: &Broker, qos: Option<u16>, s: paladin::serializer::Serializer) -> Result<(u64, AMQPConnection), Bad> {
    let conn = b.connections();
    let uri = b.uri();
    let c = AMQPConnection::new(AMQPConnectionOptions { uri: &uri, qos, serializer: s })
        .await
        .map_err(|e| Bad::Violation(format!("no connection: {e:#}")))?;
    Ok((conn, c))
}
