//! Instrumented values stored in the structs under test. Every user-visible callback fieldx can make on a value (clone,
//! comparison, debug, conversion, default, serialise, deserialise, drop) is a scheduling point and a fault point.
use crate::state::{self, Cb};
use simrt::kind;
use std::fmt;

/// What an observer saw: the value's number, how many clone generations away from the stored original it is, and the
/// instance (0 for Copy types, which are not tracked).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Rd {
    pub id:   u32,
    pub gen:  u16,
    pub inst: u32,
}

/// A tracked, move-only-observable value.
pub struct Val {
    id:    u32,
    gen:   u16,
    inst:  u32,
    epoch: u64,
}

/// A value type fieldx fields are declared with.
pub trait FxV: Sized {
    const TRACKED: bool;
    fn mk(id: u32) -> Self;
    fn rd(&self) -> Rd;
}

impl FxV for Val {
    const TRACKED: bool = true;
    fn mk(id: u32) -> Val {
        let (inst, epoch) = state::ledger_new(id);
        Val { id, gen: 0, inst, epoch }
    }
    fn rd(&self) -> Rd {
        Rd { id: self.id, gen: self.gen, inst: self.inst }
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        state::ledger_drop(self.epoch, self.inst, self.id);
        simrt::yield_point(kind::CALLBACK);
    }
}

impl Clone for Val {
    fn clone(&self) -> Val {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Clone);
        let (inst, epoch) = state::ledger_new(self.id);
        Val { id: self.id, gen: self.gen + 1, inst, epoch }
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Eq);
        self.id == o.id
    }
}
impl Eq for Val {}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Debug);
        write!(f, "V<{}>", self.id)
    }
}

impl Default for Val {
    fn default() -> Val {
        state::callback(Cb::Default);
        Val::mk(state::fresh_default())
    }
}

impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Ser);
        s.serialize_u32(self.id)
    }
}
impl<'de> serde::Deserialize<'de> for Val {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
        let id = u32::deserialize(d)?;
        Ok(Val::mk(id))
    }
}

/// A Copy value.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Cid(pub u32);
impl FxV for Cid {
    const TRACKED: bool = false;
    fn mk(id: u32) -> Cid {
        Cid(id)
    }
    fn rd(&self) -> Rd {
        Rd { id: self.0, gen: 0, inst: 0 }
    }
}
impl fmt::Debug for Cid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "V<{}>", self.0)
    }
}
impl Default for Cid {
    fn default() -> Cid {
        state::callback(Cb::Default);
        Cid(state::fresh_default())
    }
}
impl serde::Serialize for Cid {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Cid {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Cid, D::Error> {
        Ok(Cid(u32::deserialize(d)?))
    }
}

/// A value too big to be cheap, which notices when it is not whole.
#[derive(PartialEq, Eq)]
pub struct Big {
    v:   Val,
    pad: [u32; 120],
}
impl Big {
    fn of(v: Val) -> Big {
        let pad = [v.id ^ 0x5a5a_5a5a; 120];
        Big { v, pad }
    }
}
impl FxV for Big {
    const TRACKED: bool = true;
    fn mk(id: u32) -> Big {
        Big::of(Val::mk(id))
    }
    fn rd(&self) -> Rd {
        let want = self.v.id ^ 0x5a5a_5a5a;
        if self.pad.iter().any(|x| *x != want) {
            panic!("a value came apart");
        }
        self.v.rd()
    }
}
impl Clone for Big {
    fn clone(&self) -> Big {
        Big { v: self.v.clone(), pad: self.pad }
    }
}
impl fmt::Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.v.fmt(f)
    }
}
impl Default for Big {
    fn default() -> Big {
        Big::of(Val::default())
    }
}
impl serde::Serialize for Big {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.v.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Big {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Big, D::Error> {
        Val::deserialize(d).map(Big::of)
    }
}
impl From<In> for Big {
    fn from(i: In) -> Big {
        Big::of(Val::from(i))
    }
}

/// Text: what a declared default written as a string literal gives.
impl FxV for String {
    const TRACKED: bool = false;
    fn mk(id: u32) -> String {
        format!("V<{id}>")
    }
    fn rd(&self) -> Rd {
        let id = if self.is_empty() {
            state::fresh_default()
        }
        else {
            self.strip_prefix("V<").and_then(|x| x.strip_suffix('>')).and_then(|x| x.parse().ok()).expect("a value")
        };
        Rd { id, gen: 0, inst: 0 }
    }
}
impl From<In> for String {
    fn from(i: In) -> String {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Into);
        String::mk(i.0)
    }
}

/// Something convertible into a value: the argument of `into` setters.
pub struct In(pub u32);
impl From<In> for Val {
    fn from(i: In) -> Val {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Into);
        Val::mk(i.0)
    }
}
impl From<In> for Cid {
    fn from(i: In) -> Cid {
        simrt::yield_point(kind::CALLBACK);
        state::callback(Cb::Into);
        Cid(i.0)
    }
}

/// The error of fallible builders.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Er(pub u32);

/// Identity of an object: lives in a `skip` field, so fieldx never touches it except when the whole struct is cloned
/// (a clone gets a new number and remembers its parent), dropped, or rebuilt from its default.
pub struct Oid {
    pub num:    u32,
    pub parent: u32,
    epoch:      u64,
}
impl Default for Oid {
    fn default() -> Oid {
        let (num, epoch) = state::oid_new(0);
        Oid { num, parent: 0, epoch }
    }
}
impl Clone for Oid {
    fn clone(&self) -> Oid {
        let (num, epoch) = state::oid_new(self.num);
        Oid { num, parent: self.num, epoch }
    }
}
impl Drop for Oid {
    fn drop(&mut self) {
        state::oid_drop(self.epoch, self.num);
    }
}
impl PartialEq for Oid {
    fn eq(&self, _: &Oid) -> bool {
        true
    }
}
impl Eq for Oid {}
impl fmt::Debug for Oid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "O")
    }
}
