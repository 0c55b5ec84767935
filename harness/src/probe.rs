//! Values that notice which serializer they are encoded and decoded with.
use std::{
    collections::HashMap,
    sync::{Mutex, MutexGuard},
};

use paladin::{
    operation::{FatalError, FatalStrategy, Monoid, Operation, Result},
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// What a probe is part of.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Role {
    Operation,
    Input,
    Output,
    Metadata,
    Payload,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Probe {
    pub run: u64,
    pub role: Role,
    pub idx: u64,
    pub text: String,
}

/// (role, encoded or decoded, crate) -> times
pub type Seen = HashMap<(Role, bool, String), u64>;

static SEEN: Mutex<Option<HashMap<u64, Seen>>> = Mutex::new(None);

fn lock() -> MutexGuard<'static, Option<HashMap<u64, Seen>>> {
    SEEN.lock().unwrap_or_else(|e| e.into_inner())
}

/// The crate of a type.
fn origin<T>() -> String {
    let name = std::any::type_name::<T>();
    let name = name.trim_start_matches("&mut ").trim_start_matches('&');
    name.split("::").next().unwrap_or(name).to_string()
}

fn note(run: u64, role: Role, encoded: bool, origin: String) {
    if let Some(s) = lock().get_or_insert_default().get_mut(&run) {
        *s.entry((role, encoded, origin)).or_default() += 1;
    }
}

pub fn start(run: u64) {
    lock().get_or_insert_default().insert(run, Default::default());
}

pub fn stop(run: u64) -> Seen {
    lock().get_or_insert_default().remove(&run).unwrap_or_default()
}

impl Serialize for Probe {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        note(self.run, self.role, true, origin::<S>());
        (self.run, self.role, self.idx, &self.text).serialize(s)
    }
}

impl<'de> Deserialize<'de> for Probe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let from = origin::<D>();
        let (run, role, idx, text) = <(u64, Role, u64, String)>::deserialize(d)?;
        note(run, role, false, from);
        Ok(Probe { run, role, idx, text })
    }
}

pub fn combined(run: u64, a: &Probe, b: &Probe) -> Probe {
    Probe { run, role: Role::Output, idx: a.idx.wrapping_add(b.idx), text: format!("{}{}", a.text, b.text) }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ProbeOp(pub Probe);

impl ProbeOp {
    pub fn of(&self, x: &Probe) -> Probe {
        Probe { role: Role::Output, text: format!("{}<{}>", self.0.text, x.text), ..x.clone() }
    }
}

impl Operation for ProbeOp {
    type Input = Probe;
    type Output = Probe;
    fn execute(&self, x: Probe, _: AbortSignal) -> Result<Probe> {
        if x.text == "pv-fail" {
            return Err(FatalError::from_str("pv-failure \u{2713}", FatalStrategy::Terminate).into());
        }
        Ok(self.of(&x))
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ProbeCat(pub Probe);

impl Monoid for ProbeCat {
    type Elem = Probe;
    fn empty(&self) -> Probe {
        Probe { run: self.0.run, role: Role::Output, idx: 0, text: String::new() }
    }
    fn combine(&self, a: Probe, b: Probe, _: AbortSignal) -> Result<Probe> {
        Ok(combined(self.0.run, &a, &b))
    }
}
