//! Values and operations that fail to be encoded or decoded, and an operation
//! that no worker knows.
use std::time::Instant;

use paladin::{
    operation::{Monoid, Operation, RemoteExecute as RemoteExecuteTrait, Result},
    AbortSignal, RemoteExecute,
};
use serde::{de::Error as _, ser::Error as _, Deserialize, Deserializer, Serialize, Serializer};

use crate::{
    ledger::{self, Exec},
    ops::Item,
};

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Touchy {
    pub run: u64,
    pub items: Vec<u64>,
    /// Can't be encoded.
    pub ser: bool,
    /// Can't be decoded.
    pub de: bool,
    /// Panics rather than giving an error.
    pub boom: bool,
}

fn cannot<E>(boom: bool, error: impl Fn(String) -> E, what: &str) -> E {
    if boom {
        panic!("pv-intended: pv-cannot-{what}");
    }
    error(format!("pv-cannot-{what}"))
}

impl Touchy {
    pub fn new(run: u64, idx: u64) -> Self {
        Touchy { run, items: vec![idx], ..Default::default() }
    }
}

impl Serialize for Touchy {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.ser {
            return Err(cannot(self.boom, S::Error::custom, "encode"));
        }
        (self.run, &self.items, self.de, self.boom).serialize(s)
    }
}

impl<'de> Deserialize<'de> for Touchy {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let (run, items, de, boom) = <(u64, Vec<u64>, bool, bool)>::deserialize(d)?;
        if de {
            return Err(cannot(boom, D::Error::custom, "decode"));
        }
        Ok(Touchy { run, items, ser: false, de, boom })
    }
}

fn log(run: u64, idx: u64) {
    if let Some(run) = ledger::get(run) {
        run.begin(Exec {
            op: 20,
            stage: 0,
            idx,
            ranges: None,
            at: Instant::now(),
            thread: ledger::thread_id(),
        });
        run.delay_for(idx);
        run.end();
    }
}

/// Passes its input through, except that the output of element `bad` can't be
/// encoded (`how` 1) or decoded (`how` 2).
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Pass {
    pub bad: u64,
    /// 3: encoding the output panics.
    pub how: u8,
}

impl Operation for Pass {
    type Input = Touchy;
    type Output = Touchy;
    fn execute(&self, mut x: Touchy, _: AbortSignal) -> Result<Touchy> {
        log(x.run, x.items[0]);
        if x.items[0] == self.bad {
            x.ser = self.how == 1 || self.how == 3;
            x.boom = self.how == 3;
            x.de = self.how == 2;
        }
        Ok(x)
    }
}

/// Concatenates, except that a combination whose right operand starts with
/// element `bad` gives a value that can't be encoded or decoded.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Join {
    pub bad: u64,
    pub how: u8,
}

impl Monoid for Join {
    type Elem = Touchy;
    fn empty(&self) -> Touchy {
        Touchy::default()
    }
    fn combine(&self, mut a: Touchy, b: Touchy, _: AbortSignal) -> Result<Touchy> {
        log(a.run, b.items[0]);
        if b.items[0] == self.bad {
            a.ser = self.how == 1 || self.how == 3;
            a.boom = self.how == 3;
            a.de = self.how == 2;
        }
        a.items.extend(b.items);
        Ok(a)
    }
}

/// An operation that can't itself be encoded, or decoded.
#[derive(RemoteExecute, Debug, Clone)]
pub struct BadOp {
    pub ser: bool,
    pub boom: bool,
}

impl Serialize for BadOp {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.ser {
            return Err(S::Error::custom("pv-cannot-encode"));
        }
        self.boom.serialize(s)
    }
}

impl<'de> Deserialize<'de> for BadOp {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        Err(cannot(bool::deserialize(d)?, D::Error::custom, "decode"))
    }
}

impl Operation for BadOp {
    type Input = Item;
    type Output = Item;
    fn execute(&self, x: Item, _: AbortSignal) -> Result<Item> {
        Ok(x)
    }
}

/// Not registered: no worker knows it.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Unknown;

impl RemoteExecuteTrait for Unknown {
    const ID: u64 = 0x0bad_cafe_0bad_cafe;
}

impl Operation for Unknown {
    type Input = Item;
    type Output = Item;
    fn execute(&self, x: Item, _: AbortSignal) -> Result<Item> {
        Ok(x)
    }
}

/// Not registered, with the identifier 0.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Unknown0;

impl RemoteExecuteTrait for Unknown0 {
    const ID: u64 = 0;
}

impl Operation for Unknown0 {
    type Input = Item;
    type Output = Item;
    fn execute(&self, x: Item, _: AbortSignal) -> Result<Item> {
        Ok(x)
    }
}
