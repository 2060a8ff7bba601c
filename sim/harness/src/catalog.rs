// Generated by tools/gen_catalog.py - do not edit.
#![allow(dead_code, unused_imports, unused_mut, unused_variables, unexpected_cfgs, non_upper_case_globals, non_snake_case, clippy::all)]
use crate::exec::hook;
use crate::lazy_wg;
use crate::make_body;
use crate::obj::*;
use crate::plan::*;
use crate::state::DEFAULT_ID;
use crate::val::*;
use crate::subjutil::*;
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

// shape S01
#[cfg(not(fx_no_S01))]
mod m_S01 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct S01 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get(copy), reader, get_mut, writer, set, clearer)]
    c: Cid,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S01 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Cid { hook::build(self, 2) }
}
impl Obj for S01 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S01_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Cid), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S01_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s01_new() -> Handle { Handle::S(arc(S01::new())) }
fn s01_dflt() -> Handle { Handle::S(arc(S01::default())) }
pub static S01_META: Meta = Meta { name: "S01", fields: S01_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s01_new, dflt: Some(s01_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S01))]
pub use m_S01::*;

// shape S02
#[cfg(not(fx_no_S02))]
mod m_S02 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, Debug)]
pub struct S02 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S02 {
    fn build_a(&self) -> Result<Val, Er> { hook::build_f(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S02 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S02_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S02_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s02_new() -> Handle { Handle::S(arc(S02::new())) }
fn s02_dflt() -> Handle { Handle::S(arc(S02::default())) }
pub static S02_META: Meta = Meta { name: "S02", fields: S02_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s02_new, dflt: Some(s02_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S02))]
pub use m_S02::*;

// shape S03
#[cfg(not(fx_no_S03))]
mod m_S03 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, Debug)]
pub struct S03 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set(into), clearer, default(vd(9000001)))]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set(into), clearer, builder(into))]
    b: Val,
    #[fieldx(lazy, predicate, get(copy), reader, get_mut, writer, set, clearer, default(cd(9000003)))]
    c: Cid,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S03 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Cid { hook::build(self, 2) }
}
impl Obj for S03 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S03_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Cid), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(In(id)).old(), 1 => self.set_b(In(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S03_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: Some(9000001), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000003), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s03_new() -> Handle { Handle::S(arc(S03::new())) }
fn s03_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S03::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(In(id(1))), 2 => b.c(Cid::mk(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn s03_dflt() -> Handle { Handle::S(arc(S03::default())) }
pub static S03_META: Meta = Meta { name: "S03", fields: S03_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s03_new, dflt: Some(s03_dflt), make: Some(s03_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S03))]
pub use m_S03::*;

// shape S04
#[cfg(not(fx_no_S04))]
mod m_S04 {
use super::*;
#[fxstruct(sync, lazy, get, set, predicate, clearer, reader, writer, get_mut)]
#[derive(Debug)]
pub struct S04 {
    a: Val,
    #[fieldx(get(clone))]
    b: Val,
    #[fieldx(fallible(error(Er)))]
    c: Val,
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S04 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Result<Val, Er> { hook::build_f(self, 2) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S04 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S04_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Val), 3 => lazy_wg!(self.write_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S04_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s04_new() -> Handle { Handle::S(arc(S04::new())) }
fn s04_dflt() -> Handle { Handle::S(arc(S04::default())) }
pub static S04_META: Meta = Meta { name: "S04", fields: S04_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s04_new, dflt: Some(s04_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S04))]
pub use m_S04::*;

// shape S05
#[cfg(not(fx_no_S05))]
mod m_S05 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct S05 {
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(optional, predicate, get(copy), reader, get_mut, writer, set, clearer)]
    c: Cid,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for S05 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S05_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S05_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s05_new() -> Handle { Handle::S(arc(S05::new())) }
fn s05_dflt() -> Handle { Handle::S(arc(S05::default())) }
pub static S05_META: Meta = Meta { name: "S05", fields: S05_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s05_new, dflt: Some(s05_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S05))]
pub use m_S05::*;

// shape S06
#[cfg(not(fx_no_S06))]
mod m_S06 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct S06 {
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    a: Val,
    #[fieldx(lock, get(clone), reader, get_mut, writer, set, default(vd(9000002)))]
    b: Val,
    #[fieldx(lock, get(copy), reader, get_mut, writer, set)]
    c: Cid,
    #[fieldx(get, reader, writer, set(into))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for S06 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S06_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(In(id)).old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S06_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 62, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000002), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s06_new() -> Handle { Handle::S(arc(S06::new())) }
fn s06_dflt() -> Handle { Handle::S(arc(S06::default())) }
pub static S06_META: Meta = Meta { name: "S06", fields: S06_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s06_new, dflt: Some(s06_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S06))]
pub use m_S06::*;

// shape S07
#[cfg(not(fx_no_S07))]
mod m_S07 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, Debug)]
pub struct S07 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(get, get_mut, set)]
    e: Val,
    #[fieldx(optional, predicate, get, get_mut, set, lock(off))]
    f: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    g: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S07 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_g(&self) -> Result<Val, Er> { hook::build_f(self, 5) }
}
impl Obj for S07 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S07_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_f(), 5 => self.has_g(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.e().rg(), 4 => self.f().rg(), 5 => self.g().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 5 => self.read_g().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 5 => self.g_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 5 => lazy_wg!(self.write_g(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 5 => self.set_g(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 5 => self.clear_g().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.e_mut().wg(), 4 => self.f_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 3 => self.set_e(<Val as FxV>::mk(id)).old(), 4 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S07_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 43, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "g" },
];
fn s07_new() -> Handle { Handle::S(arc(S07::new())) }
fn s07_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S07::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.e(Val::mk(id(3))), 4 => b.f(Val::mk(id(4))), 5 => b.g(Val::mk(id(5))), _ => b }, |x| Handle::S(arc(x)))
}
fn s07_dflt() -> Handle { Handle::S(arc(S07::default())) }
pub static S07_META: Meta = Meta { name: "S07", fields: S07_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s07_new, dflt: Some(s07_dflt), make: Some(s07_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S07))]
pub use m_S07::*;

// shape S08
#[cfg(not(fx_no_S08))]
mod m_S08 {
use super::*;
#[fxstruct(sync, lock, get, get_mut, set, reader, writer)]
#[derive(Clone, PartialEq, Debug)]
pub struct S08 {
    a: Val,
    #[fieldx(get(clone))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl Obj for S08 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S08_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S08_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 62, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s08_new() -> Handle { Handle::S(arc(S08::new())) }
fn s08_dflt() -> Handle { Handle::S(arc(S08::default())) }
pub static S08_META: Meta = Meta { name: "S08", fields: S08_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s08_new, dflt: Some(s08_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S08))]
pub use m_S08::*;

// shape S09
#[cfg(not(fx_no_S09))]
mod m_S09 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, Debug)]
pub struct S09<T: GenV> {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: T,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: T,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: T,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: T,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl<T: GenV> S09<T> {
    fn build_a(&self) -> T { hook::build(self, 0) }
    fn build_d(&self) -> Result<T, Er> { hook::build_f(self, 3) }
}
impl<T: GenV> Obj for S09<T> {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S09_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), T), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), T), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<T as FxV>::mk(id)).old(), 1 => self.set_b(<T as FxV>::mk(id)).old(), 2 => self.set_c(<T as FxV>::mk(id)).old(), 3 => self.set_d(<T as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S09_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s09_new() -> Handle { Handle::S(arc(S09::<Val>::new())) }
fn s09_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S09::<Val>::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s09_dflt() -> Handle { Handle::S(arc(S09::<Val>::default())) }
pub static S09_META: Meta = Meta { name: "S09", fields: S09_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s09_new, dflt: Some(s09_dflt), make: Some(s09_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S09))]
pub use m_S09::*;

// shape S10
#[cfg(not(fx_no_S10))]
mod m_S10 {
use super::*;
#[fxstruct(sync, rc, builder)]
#[derive(Debug)]
pub struct S10 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000004)))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S10 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
}
impl Obj for S10 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S10_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => self.write_c().wg(), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static S10_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000004), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s10_new() -> Handle { Handle::S(S10::new()) }
fn s10_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S10::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(x))
}
pub static S10_META: Meta = Meta { name: "S10", fields: S10_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: s10_new, dflt: None, make: Some(s10_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S10))]
pub use m_S10::*;

// shape S11
#[cfg(not(fx_no_S11))]
mod m_S11 {
use super::*;
#[fxstruct(sync, rc)]
pub struct S11 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S11 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for S11 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S11_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static S11_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn s11_new() -> Handle { Handle::S(S11::new()) }
pub static S11_META: Meta = Meta { name: "S11", fields: S11_FIELDS, plain: false, clone: false, eq: false, dbg: false, ser: false, de: false, rc: true, deny: false, blocking: false, new: s11_new, dflt: None, make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S11))]
pub use m_S11::*;

// shape S12
#[cfg(not(fx_no_S12))]
mod m_S12 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct S12 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S12 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for S12 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S12_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S12_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
];
fn s12_new() -> Handle { Handle::S(arc(S12::new())) }
fn s12_dflt() -> Handle { Handle::S(arc(S12::default())) }
pub static S12_META: Meta = Meta { name: "S12", fields: S12_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s12_new, dflt: Some(s12_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S12))]
pub use m_S12::*;

// shape S13
#[cfg(not(fx_no_S13))]
mod m_S13 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct S13 {
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for S13 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S13_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S13_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
];
fn s13_new() -> Handle { Handle::S(arc(S13::new())) }
fn s13_dflt() -> Handle { Handle::S(arc(S13::default())) }
pub static S13_META: Meta = Meta { name: "S13", fields: S13_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s13_new, dflt: Some(s13_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S13))]
pub use m_S13::*;

// shape S14
#[cfg(not(fx_no_S14))]
mod m_S14 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct S14 {
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    a: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for S14 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S14_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S14_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
];
fn s14_new() -> Handle { Handle::S(arc(S14::new())) }
fn s14_dflt() -> Handle { Handle::S(arc(S14::default())) }
pub static S14_META: Meta = Meta { name: "S14", fields: S14_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s14_new, dflt: Some(s14_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S14))]
pub use m_S14::*;

// shape S15
#[cfg(not(fx_no_S15))]
mod m_S15 {
use super::*;
#[fxstruct(sync, serde)]
#[derive(Clone, Debug)]
pub struct S15 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get(copy), reader, get_mut, writer, set, clearer)]
    c: Cid,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S15 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Cid { hook::build(self, 2) }
}
impl Obj for S15 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S15_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Cid), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S15_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
];
fn s15_new() -> Handle { Handle::S(arc(S15::new())) }
fn s15_dflt() -> Handle { Handle::S(arc(S15::default())) }
fn s15_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S15>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S15_META: Meta = Meta { name: "S15", fields: S15_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s15_new, dflt: Some(s15_dflt), make: None, post: false, post_fallible: false, deser: Some(s15_de), de_struct_default: false };
}
#[cfg(not(fx_no_S15))]
pub use m_S15::*;

// shape S16
#[cfg(not(fx_no_S16))]
mod m_S16 {
use super::*;
#[fxstruct(sync, builder, serde("S16Dup", default))]
#[derive(Clone, Debug)]
pub struct S16 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    d: Val,
    #[fieldx(get)]
    e: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, serde(off))]
    f: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000017)), serde(default(vd(9000016))))]
    g: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, serde(deserialize(off)))]
    j: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000018)), serde(deserialize(off)))]
    k: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S16 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_f(&self) -> Val { hook::build(self, 5) }
    fn build_k(&self) -> Val { hook::build(self, 8) }
}
impl Obj for S16 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S16_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 5 => self.has_f(), 7 => self.has_j(), 8 => self.has_k(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), 6 => self.g().rg(), 7 => self.j().rg(), 8 => self.k().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 5 => self.read_f().rg(), 6 => self.read_g().rg(), 7 => self.read_j().rg(), 8 => self.read_k().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 5 => self.f_mut().wg(), 6 => self.g_mut().wg(), 7 => self.j_mut().wg(), 8 => self.k_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => self.write_c().wg(), 3 => self.write_d().wg(), 5 => lazy_wg!(self.write_f(), Val), 6 => self.write_g().wg(), 7 => self.write_j().wg(), 8 => lazy_wg!(self.write_k(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), 6 => self.set_g(<Val as FxV>::mk(id)).old(), 7 => self.set_j(<Val as FxV>::mk(id)).old(), 8 => self.set_k(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 5 => self.clear_f().old(), 7 => self.clear_j().old(), 8 => self.clear_k().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S16_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 2, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000017), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000016), key: "g" },
    FieldMeta { name: "j", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: false, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000018), b_set: true, b_into: false, b_req: false, ser: true, de: false, de_dflt: None, key: "k" },
];
fn s16_new() -> Handle { Handle::S(arc(S16::new())) }
fn s16_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S16::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.j(Val::mk(id(7))), 8 => b.k(Val::mk(id(8))), _ => b }, |x| Handle::S(arc(x)))
}
fn s16_dflt() -> Handle { Handle::S(arc(S16::default())) }
fn s16_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S16>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S16_META: Meta = Meta { name: "S16", fields: S16_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s16_new, dflt: Some(s16_dflt), make: Some(s16_make), post: false, post_fallible: false, deser: Some(s16_de), de_struct_default: true };
}
#[cfg(not(fx_no_S16))]
pub use m_S16::*;

// shape S17
#[cfg(not(fx_no_S17))]
mod m_S17 {
use super::*;
#[fxstruct(sync, serde)]
#[derive(Clone, Debug)]
pub struct S17 {
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000005)))]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, serde(default(vd(9000019))))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S17 {
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S17 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S17_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => lazy_wg!(self.write_c(), Val), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S17_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000005), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000019), key: "d" },
];
fn s17_new() -> Handle { Handle::S(arc(S17::new())) }
fn s17_dflt() -> Handle { Handle::S(arc(S17::default())) }
fn s17_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S17>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S17_META: Meta = Meta { name: "S17", fields: S17_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s17_new, dflt: Some(s17_dflt), make: None, post: false, post_fallible: false, deser: Some(s17_de), de_struct_default: false };
}
#[cfg(not(fx_no_S17))]
pub use m_S17::*;

// shape S18
#[cfg(not(fx_no_S18))]
mod m_S18 {
use super::*;
#[fxstruct(sync, builder(post_build(fixup)))]
#[derive(Debug)]
pub struct S18 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, builder(required))]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000006)))]
    d: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, builder(required))]
    e: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000020)))]
    f: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S18 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_e(&self) -> Val { hook::build(self, 4) }
    fn fixup(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for S18 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S18_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), 5 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), 5 => self.read_f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => self.write_d().wg(), 4 => lazy_wg!(self.write_e(), Val), 5 => self.write_f().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S18_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000006), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000020), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
];
fn s18_new() -> Handle { Handle::S(arc(S18::new())) }
fn s18_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S18::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), _ => b }, |x| Handle::S(arc(x)))
}
fn s18_dflt() -> Handle { Handle::S(arc(S18::default())) }
pub static S18_META: Meta = Meta { name: "S18", fields: S18_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s18_new, dflt: Some(s18_dflt), make: Some(s18_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S18))]
pub use m_S18::*;

// shape S19
#[cfg(not(fx_no_S19))]
mod m_S19 {
use super::*;
#[fxstruct(sync, builder(error(BErr), post_build(fixup)))]
#[derive(Debug)]
pub struct S19 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, builder(into))]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, builder(into))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S19 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn fixup(self) -> Result<Self, BErr> { hook::post(&self).map_err(|e| BErr::Post(e.0))?; Ok(self) }
}
impl Obj for S19 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S19_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S19_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s19_new() -> Handle { Handle::S(arc(S19::new())) }
fn s19_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S19::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(In(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn s19_dflt() -> Handle { Handle::S(arc(S19::default())) }
pub static S19_META: Meta = Meta { name: "S19", fields: S19_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s19_new, dflt: Some(s19_dflt), make: Some(s19_make), post: true, post_fallible: true, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S19))]
pub use m_S19::*;

// shape S20
#[cfg(not(fx_no_S20))]
mod m_S20 {
use super::*;
#[fxstruct(sync, rc, builder(post_build(fixup)))]
#[derive(Debug)]
pub struct S20 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S20 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn fixup(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for S20 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S20_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static S20_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s20_new() -> Handle { Handle::S(S20::new()) }
fn s20_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S20::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), _ => b }, |x| Handle::S(x))
}
pub static S20_META: Meta = Meta { name: "S20", fields: S20_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: s20_new, dflt: None, make: Some(s20_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S20))]
pub use m_S20::*;

// shape S21
#[cfg(not(fx_no_S21))]
mod m_S21 {
use super::*;
#[fxstruct(sync)]
#[derive(Debug)]
pub struct S21 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, r#async)]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(optional, predicate, reader, writer, set, clearer, r#async)]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S21 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    async fn build_b(&self) -> Val { hook::a_build(self, 1).await }
}
impl Obj for S21 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S21_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 3 => Box::pin(async move { self.has_d().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 1 => Box::pin(async move { self.b().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 1 => Box::pin(async move { self.read_b().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 1 => Box::pin(async move { self.b_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), 3 => Box::pin(async move { self.write_d().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 1 => Box::pin(async move { self.clear_b().await.old() }), 3 => Box::pin(async move { self.clear_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S21_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s21_new() -> Handle { Handle::S(arc(S21::new())) }
fn s21_dflt() -> Handle { Handle::S(arc(S21::default())) }
pub static S21_META: Meta = Meta { name: "S21", fields: S21_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s21_new, dflt: Some(s21_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S21))]
pub use m_S21::*;

// shape S22
#[cfg(not(fx_no_S22))]
mod m_S22 {
use super::*;
#[fxstruct(sync, lazy, predicate, clearer)]
#[derive(Debug)]
pub struct S22 {
    #[fieldx(get, set)]
    a: Val,
    #[fieldx(lazy("make_b"), get, writer)]
    b: Val,
    #[fieldx(lazy(off), predicate(off), clearer(off), lock, get, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S22 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn make_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for S22 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S22_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 1 => lazy_wg!(self.write_b(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S22_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 83, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s22_new() -> Handle { Handle::S(arc(S22::new())) }
fn s22_dflt() -> Handle { Handle::S(arc(S22::default())) }
pub static S22_META: Meta = Meta { name: "S22", fields: S22_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s22_new, dflt: Some(s22_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S22))]
pub use m_S22::*;

// shape S23
#[cfg(not(fx_no_S23))]
mod m_S23 {
use super::*;
#[fxstruct(sync)]
#[derive(Debug)]
pub struct S23 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, rename("alpha"))]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, rename("beta"))]
    b: Val,
    #[fieldx(lock, get, reader, writer, set)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S23 {
    fn build_alpha(&self) -> Val { hook::build(self, 0) }
}
impl Obj for S23 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S23_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_alpha(), 1 => self.has_beta(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.alpha().rg(), 1 => self.beta().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_alpha().rg(), 1 => self.read_beta().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.alpha_mut().wg(), 1 => self.beta_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_alpha(), Val), 1 => self.write_beta().wg(), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_alpha(<Val as FxV>::mk(id)).old(), 1 => self.set_beta(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_alpha().old(), 1 => self.clear_beta().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S23_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s23_new() -> Handle { Handle::S(arc(S23::new())) }
fn s23_dflt() -> Handle { Handle::S(arc(S23::default())) }
pub static S23_META: Meta = Meta { name: "S23", fields: S23_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s23_new, dflt: Some(s23_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S23))]
pub use m_S23::*;

// shape S24
#[cfg(not(fx_no_S24))]
mod m_S24 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, Debug)]
pub struct S24 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    a: Val,
    #[fieldx(inner_mut, get, get_mut, set)]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S24 {
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S24 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S24_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 2 => lazy_wg!(self.write_c(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S24_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s24_new() -> Handle { Handle::B(boxed(S24::new())) }
fn s24_dflt() -> Handle { Handle::B(boxed(S24::default())) }
pub static S24_META: Meta = Meta { name: "S24", fields: S24_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s24_new, dflt: Some(s24_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S24))]
pub use m_S24::*;

// shape S25
#[cfg(not(fx_no_S25))]
mod m_S25 {
use super::*;
#[fxstruct(sync, builder(into), into)]
#[derive(Debug)]
pub struct S25 {
    #[fieldx(lazy, predicate, get, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, set, clearer)]
    b: Val,
    #[fieldx(lock, get, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S25 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for S25 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S25_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(In(id)).old(), 1 => self.set_b(In(id)).old(), 2 => self.set_c(In(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S25_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s25_new() -> Handle { Handle::S(arc(S25::new())) }
fn s25_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S25::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), 2 => b.c(In(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn s25_dflt() -> Handle { Handle::S(arc(S25::default())) }
pub static S25_META: Meta = Meta { name: "S25", fields: S25_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s25_new, dflt: Some(s25_dflt), make: Some(s25_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S25))]
pub use m_S25::*;

// shape S26
#[cfg(not(fx_no_S26))]
mod m_S26 {
use super::*;
#[fxstruct(sync, builder(error(BErr, BErr::Unset)))]
#[derive(Debug)]
pub struct S26 {
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, builder(required))]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S26 {
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S26 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S26_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => lazy_wg!(self.write_c(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S26_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s26_new() -> Handle { Handle::S(arc(S26::new())) }
fn s26_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S26::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn s26_dflt() -> Handle { Handle::S(arc(S26::default())) }
pub static S26_META: Meta = Meta { name: "S26", fields: S26_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s26_new, dflt: Some(s26_dflt), make: Some(s26_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S26))]
pub use m_S26::*;

// shape S27
#[cfg(not(fx_no_S27))]
mod m_S27 {
use super::*;
#[fxstruct(sync, optional, get, set, clearer, predicate, writer)]
#[derive(Clone, PartialEq, Debug)]
pub struct S27 {
    a: Val,
    #[fieldx(get(clone))]
    b: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl Obj for S27 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S27_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S27_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 115, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 115, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn s27_new() -> Handle { Handle::S(arc(S27::new())) }
fn s27_dflt() -> Handle { Handle::S(arc(S27::default())) }
pub static S27_META: Meta = Meta { name: "S27", fields: S27_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s27_new, dflt: Some(s27_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S27))]
pub use m_S27::*;

// shape S28
#[cfg(not(fx_no_S28))]
mod m_S28 {
use super::*;
#[fxstruct(sync, fallible(error(Er)), lazy, get, clearer, predicate)]
#[derive(Debug)]
pub struct S28 {
    #[fieldx(set)]
    a: Val,
    #[fieldx(get_mut, reader)]
    b: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S28 {
    fn build_a(&self) -> Result<Val, Er> { hook::build_f(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
}
impl Obj for S28 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S28_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 1 => self.read_b().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.b_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S28_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 79, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn s28_new() -> Handle { Handle::S(arc(S28::new())) }
fn s28_dflt() -> Handle { Handle::S(arc(S28::default())) }
pub static S28_META: Meta = Meta { name: "S28", fields: S28_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s28_new, dflt: Some(s28_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S28))]
pub use m_S28::*;

// shape S29
#[cfg(not(fx_no_S29))]
mod m_S29 {
use super::*;
#[fxstruct(sync, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct S29 {
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000024)))]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000025)), rename("beta"))]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, rename("gamma"))]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000026)))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S29 {
    fn build_gamma(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S29 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S29_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_beta(), 2 => self.has_gamma(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.beta().rg(), 2 => self.gamma().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_beta().rg(), 2 => self.read_gamma().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.beta_mut().wg(), 2 => self.gamma_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_beta().wg(), 2 => lazy_wg!(self.write_gamma(), Val), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_beta(<Val as FxV>::mk(id)).old(), 2 => self.set_gamma(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_beta().old(), 2 => self.clear_gamma().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S29_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000024), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000025), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "beta" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "gamma" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000026), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
];
fn s29_new() -> Handle { Handle::S(arc(S29::new())) }
fn s29_dflt() -> Handle { Handle::S(arc(S29::default())) }
fn s29_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S29>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S29_META: Meta = Meta { name: "S29", fields: S29_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s29_new, dflt: Some(s29_dflt), make: None, post: false, post_fallible: false, deser: Some(s29_de), de_struct_default: false };
}
#[cfg(not(fx_no_S29))]
pub use m_S29::*;

// shape S30
#[cfg(not(fx_no_S30))]
mod m_S30 {
use super::*;
#[fxstruct(sync, serde("S30Dup", default(Self::sdef())))]
#[derive(Clone, Debug)]
pub struct S30 {
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(optional, predicate, get, set, clearer)]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
pub struct Sd30;
impl S30 { fn sdef() -> Sd30 { Sd30 } }
impl From<Sd30> for S30Dup { fn from(_: Sd30) -> S30Dup { S30Dup { a: Some(vd(9000030)), b: Some(vd(9000031)), c: vd(9000032), d: None } } }

impl S30 {
    fn build_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for S30 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S30_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => lazy_wg!(self.write_b(), Val), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S30_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000030), key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000031), key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000032), key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
];
fn s30_new() -> Handle { Handle::S(arc(S30::new())) }
fn s30_dflt() -> Handle { Handle::S(arc(S30::default())) }
fn s30_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S30>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S30_META: Meta = Meta { name: "S30", fields: S30_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s30_new, dflt: Some(s30_dflt), make: None, post: false, post_fallible: false, deser: Some(s30_de), de_struct_default: false };
}
#[cfg(not(fx_no_S30))]
pub use m_S30::*;

// shape S31
#[cfg(not(fx_no_S31))]
mod m_S31 {
use super::*;
#[fxstruct(sync, no_new, default, predicate, clearer)]
#[derive(Clone, Debug)]
pub struct S31 {
    #[fieldx(lazy, get, set, default(vd(9000033)))]
    a: Val,
    #[fieldx(get, writer)]
    b: Val,
    #[fieldx(predicate(off), clearer(off), lock, get, set, default(vd(9000034)))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S31 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for S31 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S31_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.write_b().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S31_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000033), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 83, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000034), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s31_new() -> Handle { Handle::S(arc(S31::default())) }
fn s31_dflt() -> Handle { Handle::S(arc(S31::default())) }
pub static S31_META: Meta = Meta { name: "S31", fields: S31_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s31_new, dflt: Some(s31_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S31))]
pub use m_S31::*;

// shape S32
#[cfg(not(fx_no_S32))]
mod m_S32 {
use super::*;
#[fxstruct(sync, builder("with_", opt_in))]
#[derive(Clone, Debug)]
pub struct S32 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, builder)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, builder(into))]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    d: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S32 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S32 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S32_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 4 => self.write_e().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S32_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn s32_new() -> Handle { Handle::S(arc(S32::new())) }
fn s32_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S32::builder(), |b, f| match f { 0 => b.with_a(Val::mk(id(0))), 2 => b.with_c(In(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn s32_dflt() -> Handle { Handle::S(arc(S32::default())) }
pub static S32_META: Meta = Meta { name: "S32", fields: S32_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s32_new, dflt: Some(s32_dflt), make: Some(s32_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S32))]
pub use m_S32::*;

// shape S33
#[cfg(not(fx_no_S33))]
mod m_S33 {
use super::*;
#[fxstruct(sync, get, set)]
#[derive(Clone, PartialEq, Debug)]
pub struct S33 {
    #[fieldx(predicate)]
    a: Val,
    #[fieldx(clearer, writer)]
    b: Val,
    #[fieldx(lazy, clearer, get_mut)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S33 {
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S33 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S33_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.write_b().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S33_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 35, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 114, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 106, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s33_new() -> Handle { Handle::S(arc(S33::new())) }
fn s33_dflt() -> Handle { Handle::S(arc(S33::default())) }
pub static S33_META: Meta = Meta { name: "S33", fields: S33_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s33_new, dflt: Some(s33_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S33))]
pub use m_S33::*;

// shape S34
#[cfg(not(fx_no_S34))]
mod m_S34 {
use super::*;
#[fxstruct(mode(sync), serde(deserialize(off)))]
#[derive(Clone, Debug)]
pub struct S34 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, serde(off))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S34 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S34 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S34_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S34_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: true, de_dflt: None, key: "d" },
];
fn s34_new() -> Handle { Handle::S(arc(S34::new())) }
fn s34_dflt() -> Handle { Handle::S(arc(S34::default())) }
pub static S34_META: Meta = Meta { name: "S34", fields: S34_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: false, rc: false, deny: false, blocking: false, new: s34_new, dflt: Some(s34_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S34))]
pub use m_S34::*;

// shape S35
#[cfg(not(fx_no_S35))]
mod m_S35 {
use super::*;
#[fxstruct(sync, serde, builder)]
#[derive(Clone, Debug)]
pub struct S35 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000035)))]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, serde(default(vd(9000036))))]
    c: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000038)), serde(default(vd(9000037))))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S35 {
    fn build_a(&self) -> Result<Val, Er> { hook::build_f(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for S35 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S35_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Val), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S35_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000035), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000036), key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000038), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000037), key: "d" },
];
fn s35_new() -> Handle { Handle::S(arc(S35::new())) }
fn s35_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S35::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s35_dflt() -> Handle { Handle::S(arc(S35::default())) }
fn s35_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S35>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S35_META: Meta = Meta { name: "S35", fields: S35_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s35_new, dflt: Some(s35_dflt), make: Some(s35_make), post: false, post_fallible: false, deser: Some(s35_de), de_struct_default: false };
}
#[cfg(not(fx_no_S35))]
pub use m_S35::*;

// shape S36
#[cfg(not(fx_no_S36))]
mod m_S36 {
use super::*;
#[fxstruct(sync, rc, builder(into), lazy, get, predicate, clearer)]
#[derive(Debug)]
pub struct S36 {
    #[fieldx(writer)]
    a: Val,
    #[fieldx(get(clone), writer, fallible(error(Er)))]
    b: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S36 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
}
impl Obj for S36 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S36_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static S36_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 83, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 83, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn s36_new() -> Handle { Handle::S(S36::new()) }
fn s36_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S36::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), _ => b }, |x| Handle::S(x))
}
pub static S36_META: Meta = Meta { name: "S36", fields: S36_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: s36_new, dflt: None, make: Some(s36_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S36))]
pub use m_S36::*;

// shape S37
#[cfg(not(fx_no_S37))]
mod m_S37 {
use super::*;
#[fxstruct(sync, serde(default), builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct S37 {
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000060)))]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)), default(vd(9000061)))]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000062)))]
    c: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000064)), serde(default(vd(9000063))))]
    d: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S37 {
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
}
impl Obj for S37 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S37_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => lazy_wg!(self.write_b(), Val), 2 => self.write_c().wg(), 3 => self.write_d().wg(), 4 => self.write_e().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S37_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000060), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000061), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000062), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000064), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000063), key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
];
fn s37_new() -> Handle { Handle::S(arc(S37::new())) }
fn s37_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S37::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), _ => b }, |x| Handle::S(arc(x)))
}
fn s37_dflt() -> Handle { Handle::S(arc(S37::default())) }
fn s37_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S37>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S37_META: Meta = Meta { name: "S37", fields: S37_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s37_new, dflt: Some(s37_dflt), make: Some(s37_make), post: false, post_fallible: false, deser: Some(s37_de), de_struct_default: true };
}
#[cfg(not(fx_no_S37))]
pub use m_S37::*;

// shape S38
#[cfg(not(fx_no_S38))]
mod m_S38 {
use super::*;
#[fxstruct(sync, builder, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct S38 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    e: Val,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    f: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000080)))]
    g: Val,
    #[fieldx(lazy, get, reader, writer)]
    h: Val,
    #[fieldx(optional, predicate, writer, clearer)]
    i: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    j: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    k: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    l: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    m: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    n: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S38 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
    fn build_e(&self) -> Val { hook::build(self, 4) }
    fn build_g(&self) -> Val { hook::build(self, 6) }
    fn build_h(&self) -> Val { hook::build(self, 7) }
    fn build_j(&self) -> Val { hook::build(self, 9) }
    fn build_l(&self) -> Result<Val, Er> { hook::build_f(self, 11) }
    fn build_m(&self) -> Val { hook::build(self, 12) }
}
impl Obj for S38 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S38_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), 5 => self.has_f(), 6 => self.has_g(), 8 => self.has_i(), 9 => self.has_j(), 11 => self.has_l(), 12 => self.has_m(), 13 => self.has_n(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), 6 => self.g().rg(), 7 => self.h().rg(), 9 => self.j().rg(), 10 => self.k().rg(), 11 => self.l().rg(), 12 => self.m().rg(), 13 => self.n().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), 5 => self.read_f().rg(), 6 => self.read_g().rg(), 7 => self.read_h().rg(), 9 => self.read_j().rg(), 10 => self.read_k().rg(), 11 => self.read_l().rg(), 12 => self.read_m().rg(), 13 => self.read_n().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), 6 => self.g_mut().wg(), 9 => self.j_mut().wg(), 10 => self.k_mut().wg(), 11 => self.l_mut().wg(), 12 => self.m_mut().wg(), 13 => self.n_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 4 => lazy_wg!(self.write_e(), Val), 5 => self.write_f().wg(), 6 => lazy_wg!(self.write_g(), Val), 7 => lazy_wg!(self.write_h(), Val), 8 => self.write_i().wg(), 9 => lazy_wg!(self.write_j(), Val), 10 => self.write_k().wg(), 11 => lazy_wg!(self.write_l(), Val), 12 => lazy_wg!(self.write_m(), Val), 13 => self.write_n().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), 6 => self.set_g(<Val as FxV>::mk(id)).old(), 9 => self.set_j(<Val as FxV>::mk(id)).old(), 10 => self.set_k(<Val as FxV>::mk(id)).old(), 11 => self.set_l(<Val as FxV>::mk(id)).old(), 12 => self.set_m(<Val as FxV>::mk(id)).old(), 13 => self.set_n(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), 6 => self.clear_g().old(), 8 => self.clear_i().old(), 9 => self.clear_j().old(), 11 => self.clear_l().old(), 12 => self.clear_m().old(), 13 => self.clear_n().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S38_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000080), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "g" },
    FieldMeta { name: "h", k: K::Lazy, a: false, ops: 22, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "h" },
    FieldMeta { name: "i", k: K::Opt, a: false, ops: 81, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "i" },
    FieldMeta { name: "j", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "k" },
    FieldMeta { name: "l", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "l" },
    FieldMeta { name: "m", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "m" },
    FieldMeta { name: "n", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "n" },
];
fn s38_new() -> Handle { Handle::S(arc(S38::new())) }
fn s38_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S38::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.h(Val::mk(id(7))), 8 => b.i(Val::mk(id(8))), 9 => b.j(Val::mk(id(9))), 10 => b.k(Val::mk(id(10))), 11 => b.l(Val::mk(id(11))), 12 => b.m(Val::mk(id(12))), 13 => b.n(Val::mk(id(13))), _ => b }, |x| Handle::S(arc(x)))
}
fn s38_dflt() -> Handle { Handle::S(arc(S38::default())) }
fn s38_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S38>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S38_META: Meta = Meta { name: "S38", fields: S38_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s38_new, dflt: Some(s38_dflt), make: Some(s38_make), post: false, post_fallible: false, deser: Some(s38_de), de_struct_default: false };
}
#[cfg(not(fx_no_S38))]
pub use m_S38::*;

// shape A01
#[cfg(not(fx_no_A01))]
mod m_A01 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A01 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get(copy), reader, get_mut, writer, set, clearer)]
    c: Cid,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A01 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Val { hook::a_build(self, 1).await }
    async fn build_c(&self) -> Cid { hook::a_build(self, 2).await }
}
impl Obj for A01 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A01_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 1 => Box::pin(async move { self.b_mut().await.wg() }), 2 => Box::pin(async move { self.c_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), 2 => Box::pin(async move { lazy_wg!(self.write_c().await, Cid) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Cid as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A01_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a01_new() -> Handle { Handle::S(arc(A01::new())) }
fn a01_dflt() -> Handle { Handle::S(arc(A01::default())) }
pub static A01_META: Meta = Meta { name: "A01", fields: A01_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a01_new, dflt: Some(a01_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A01))]
pub use m_A01::*;

// shape A02
#[cfg(not(fx_no_A02))]
mod m_A02 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A02 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A02 {
    async fn build_a(&self) -> Result<Val, Er> { hook::a_build_f(self, 0).await }
    async fn build_b(&self) -> Result<Val, Er> { hook::a_build_f(self, 1).await }
    async fn build_c(&self) -> Val { hook::a_build(self, 2).await }
}
impl Obj for A02 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A02_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 1 => Box::pin(async move { self.b_mut().await.wg() }), 2 => Box::pin(async move { self.c_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), 2 => Box::pin(async move { lazy_wg!(self.write_c().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A02_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a02_new() -> Handle { Handle::S(arc(A02::new())) }
fn a02_dflt() -> Handle { Handle::S(arc(A02::default())) }
pub static A02_META: Meta = Meta { name: "A02", fields: A02_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a02_new, dflt: Some(a02_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A02))]
pub use m_A02::*;

// shape A03
#[cfg(not(fx_no_A03))]
mod m_A03 {
use super::*;
#[fxstruct(r#async, builder)]
#[derive(Debug)]
pub struct A03 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set(into), clearer, default(vd(9000001)))]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set(into), clearer, builder(into))]
    b: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A03 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Val { hook::a_build(self, 1).await }
}
impl Obj for A03 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A03_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 1 => Box::pin(async move { self.b_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(In(id)).await.old() }), 1 => Box::pin(async move { self.set_b(In(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A03_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: Some(9000001), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn a03_new() -> Handle { Handle::S(arc(A03::new())) }
fn a03_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A03::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(In(id(1))), _ => b }, |x| Handle::S(arc(x)))
}
fn a03_dflt() -> Handle { Handle::S(arc(A03::default())) }
pub static A03_META: Meta = Meta { name: "A03", fields: A03_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a03_new, dflt: Some(a03_dflt), make: Some(a03_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A03))]
pub use m_A03::*;

// shape A04
#[cfg(not(fx_no_A04))]
mod m_A04 {
use super::*;
#[fxstruct(r#async, lazy, get, set, predicate, clearer, reader, writer, get_mut)]
#[derive(Debug)]
pub struct A04 {
    a: Val,
    #[fieldx(get(clone))]
    b: Val,
    #[fieldx(fallible(error(Er)))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A04 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Val { hook::a_build(self, 1).await }
    async fn build_c(&self) -> Result<Val, Er> { hook::a_build_f(self, 2).await }
}
impl Obj for A04 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A04_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 1 => Box::pin(async move { self.b_mut().await.wg() }), 2 => Box::pin(async move { self.c_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), 2 => Box::pin(async move { lazy_wg!(self.write_c().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A04_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a04_new() -> Handle { Handle::S(arc(A04::new())) }
fn a04_dflt() -> Handle { Handle::S(arc(A04::default())) }
pub static A04_META: Meta = Meta { name: "A04", fields: A04_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a04_new, dflt: Some(a04_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A04))]
pub use m_A04::*;

// shape A05
#[cfg(not(fx_no_A05))]
mod m_A05 {
use super::*;
#[fxstruct(r#async)]
#[derive(Clone, Debug)]
pub struct A05 {
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, reader, writer, set, clearer)]
    b: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for A05 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A05_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 0 => Box::pin(async move { self.has_a().await }), 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.write_a().await.wg() }), 1 => Box::pin(async move { self.write_b().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A05_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn a05_new() -> Handle { Handle::S(arc(A05::new())) }
fn a05_dflt() -> Handle { Handle::S(arc(A05::default())) }
pub static A05_META: Meta = Meta { name: "A05", fields: A05_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a05_new, dflt: Some(a05_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A05))]
pub use m_A05::*;

// shape A06
#[cfg(not(fx_no_A06))]
mod m_A06 {
use super::*;
#[fxstruct(r#async)]
#[derive(Clone, Debug)]
pub struct A06 {
    #[fieldx(lock, get, reader, writer, set)]
    a: Val,
    #[fieldx(lock, reader, writer, set(into), default(vd(9000002)))]
    b: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for A06 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A06_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.write_a().await.wg() }), 1 => Box::pin(async move { self.write_b().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(In(id)).await.old() }), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A06_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: true, ops: 52, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: Some(9000002), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn a06_new() -> Handle { Handle::S(arc(A06::new())) }
fn a06_dflt() -> Handle { Handle::S(arc(A06::default())) }
pub static A06_META: Meta = Meta { name: "A06", fields: A06_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a06_new, dflt: Some(a06_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A06))]
pub use m_A06::*;

// shape A07
#[cfg(not(fx_no_A07))]
mod m_A07 {
use super::*;
#[fxstruct(r#async, builder)]
#[derive(Debug)]
pub struct A07 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, writer, set)]
    c: Val,
    #[fieldx(get, get_mut, set)]
    e: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    g: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A07 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_g(&self) -> Result<Val, Er> { hook::a_build_f(self, 4).await }
}
impl Obj for A07 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A07_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 4 => self.has_g(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 3 => self.e().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.e_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 3 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 4 => Box::pin(async move { self.g().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 4 => Box::pin(async move { self.read_g().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 4 => Box::pin(async move { self.g_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), 4 => Box::pin(async move { lazy_wg!(self.write_g().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 4 => Box::pin(async move { self.set_g(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 4 => Box::pin(async move { self.clear_g().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A07_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "g", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "g" },
];
fn a07_new() -> Handle { Handle::S(arc(A07::new())) }
fn a07_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A07::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.e(Val::mk(id(3))), 4 => b.g(Val::mk(id(4))), _ => b }, |x| Handle::S(arc(x)))
}
fn a07_dflt() -> Handle { Handle::S(arc(A07::default())) }
pub static A07_META: Meta = Meta { name: "A07", fields: A07_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a07_new, dflt: Some(a07_dflt), make: Some(a07_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A07))]
pub use m_A07::*;

// shape A08
#[cfg(not(fx_no_A08))]
mod m_A08 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A08<T: GenV> {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: T,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    b: T,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: T,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl<T: GenV> A08<T> {
    async fn build_a(&self) -> T { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<T, Er> { hook::a_build_f(self, 2).await }
}
impl<T: GenV> Obj for A08<T> {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A08_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 2 => self.has_d(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 2 => Box::pin(async move { self.d_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, T) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { lazy_wg!(self.write_d().await, T) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<T as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<T as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_d(<T as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A08_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn a08_new() -> Handle { Handle::S(arc(A08::<Val>::new())) }
fn a08_dflt() -> Handle { Handle::S(arc(A08::<Val>::default())) }
pub static A08_META: Meta = Meta { name: "A08", fields: A08_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a08_new, dflt: Some(a08_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A08))]
pub use m_A08::*;

// shape A09
#[cfg(not(fx_no_A09))]
mod m_A09 {
use super::*;
#[fxstruct(r#async, rc, builder)]
#[derive(Debug)]
pub struct A09 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A09 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Result<Val, Er> { hook::a_build_f(self, 1).await }
}
impl Obj for A09 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A09_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 2 => Box::pin(async move { self.has_c().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 1 => Box::pin(async move { self.b_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), 2 => Box::pin(async move { self.write_c().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static A09_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a09_new() -> Handle { Handle::S(A09::new()) }
fn a09_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A09::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), _ => b }, |x| Handle::S(x))
}
pub static A09_META: Meta = Meta { name: "A09", fields: A09_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: true, new: a09_new, dflt: None, make: Some(a09_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A09))]
pub use m_A09::*;

// shape A10
#[cfg(not(fx_no_A10))]
mod m_A10 {
use super::*;
#[fxstruct(r#async)]
#[derive(Clone, PartialEq, Debug)]
pub struct A10 {
    #[fieldx(lock, get, reader, writer, set)]
    a: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for A10 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A10_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.write_a().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A10_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
];
fn a10_new() -> Handle { Handle::S(arc(A10::new())) }
fn a10_dflt() -> Handle { Handle::S(arc(A10::default())) }
pub static A10_META: Meta = Meta { name: "A10", fields: A10_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a10_new, dflt: Some(a10_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A10))]
pub use m_A10::*;

// shape A11
#[cfg(not(fx_no_A11))]
mod m_A11 {
use super::*;
#[fxstruct(r#async, builder(post_build(fixup)))]
#[derive(Debug)]
pub struct A11 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer, builder(required))]
    b: Val,
    #[fieldx(lock, get, reader, writer, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A11 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    fn fixup(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for A11 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A11_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A11_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a11_new() -> Handle { Handle::S(arc(A11::new())) }
fn a11_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A11::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn a11_dflt() -> Handle { Handle::S(arc(A11::default())) }
pub static A11_META: Meta = Meta { name: "A11", fields: A11_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a11_new, dflt: Some(a11_dflt), make: Some(a11_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A11))]
pub use m_A11::*;

// shape A12
#[cfg(not(fx_no_A12))]
mod m_A12 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A12 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, clearer)]
    b: Val,
    #[fieldx(optional, predicate, reader, writer, set, clearer)]
    c: Val,
    #[fieldx(get, get_mut, set)]
    d: Val,
    #[fieldx(optional, predicate, get, get_mut, set, lock(off))]
    e: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A12 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Val { hook::a_build(self, 1).await }
}
impl Obj for A12 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A12_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 2 => Box::pin(async move { self.has_c().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 2 => Box::pin(async move { self.write_c().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A12_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 67, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 43, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn a12_new() -> Handle { Handle::S(arc(A12::new())) }
fn a12_dflt() -> Handle { Handle::S(arc(A12::default())) }
pub static A12_META: Meta = Meta { name: "A12", fields: A12_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a12_new, dflt: Some(a12_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A12))]
pub use m_A12::*;

// shape A13
#[cfg(not(fx_no_A13))]
mod m_A13 {
use super::*;
#[fxstruct(r#async, lazy, predicate, clearer)]
#[derive(Debug)]
pub struct A13 {
    #[fieldx(get, set)]
    a: Val,
    #[fieldx(lazy("make_b"), get, writer)]
    b: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A13 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn make_b(&self) -> Val { hook::a_build(self, 1).await }
}
impl Obj for A13 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A13_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A13_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 83, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn a13_new() -> Handle { Handle::S(arc(A13::new())) }
fn a13_dflt() -> Handle { Handle::S(arc(A13::default())) }
pub static A13_META: Meta = Meta { name: "A13", fields: A13_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a13_new, dflt: Some(a13_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A13))]
pub use m_A13::*;

// shape A14
#[cfg(not(fx_no_A14))]
mod m_A14 {
use super::*;
#[fxstruct(r#async, serde)]
#[derive(Clone)]
pub struct A14 {
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    a: Val,
    #[fieldx(lock, get, reader, writer, set)]
    b: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for A14 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A14_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 0 => Box::pin(async move { self.has_a().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.write_a().await.wg() }), 1 => Box::pin(async move { self.write_b().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static A14_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
];
fn a14_new() -> Handle { Handle::S(arc(A14::new())) }
fn a14_dflt() -> Handle { Handle::S(arc(A14::default())) }
fn a14_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<A14>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static A14_META: Meta = Meta { name: "A14", fields: A14_FIELDS, plain: false, clone: true, eq: false, dbg: false, ser: true, de: true, rc: false, deny: false, blocking: true, new: a14_new, dflt: Some(a14_dflt), make: None, post: false, post_fallible: false, deser: Some(a14_de), de_struct_default: false };
}
#[cfg(not(fx_no_A14))]
pub use m_A14::*;

// shape A15
#[cfg(not(fx_no_A15))]
mod m_A15 {
use super::*;
#[fxstruct(r#async)]
#[derive(Clone, PartialEq, Debug)]
pub struct A15 {
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    a: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for A15 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A15_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 0 => Box::pin(async move { self.has_a().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.write_a().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A15_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
];
fn a15_new() -> Handle { Handle::S(arc(A15::new())) }
fn a15_dflt() -> Handle { Handle::S(arc(A15::default())) }
pub static A15_META: Meta = Meta { name: "A15", fields: A15_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a15_new, dflt: Some(a15_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A15))]
pub use m_A15::*;

// shape A16
#[cfg(not(fx_no_A16))]
mod m_A16 {
use super::*;
#[fxstruct(mode(async), builder("with_", opt_in))]
#[derive(Debug)]
pub struct A16 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000040)), builder)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer, default(vd(9000041)))]
    b: Val,
    #[fieldx(lock, get, reader, writer, set, builder(into))]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A16 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Val, Er> { hook::a_build_f(self, 3).await }
}
impl Obj for A16 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A16_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 3 => self.has_d(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 3 => Box::pin(async move { self.d_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), 3 => Box::pin(async move { lazy_wg!(self.write_d().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 3 => Box::pin(async move { self.clear_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A16_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000040), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000041), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn a16_new() -> Handle { Handle::S(arc(A16::new())) }
fn a16_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A16::builder(), |b, f| match f { 0 => b.with_a(Val::mk(id(0))), 2 => b.with_c(In(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn a16_dflt() -> Handle { Handle::S(arc(A16::default())) }
pub static A16_META: Meta = Meta { name: "A16", fields: A16_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a16_new, dflt: Some(a16_dflt), make: Some(a16_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A16))]
pub use m_A16::*;

// shape A17
#[cfg(not(fx_no_A17))]
mod m_A17 {
use super::*;
#[fxstruct(r#async, rc, builder(post_build(fixup)))]
#[derive(Debug)]
pub struct A17 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, reader, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, writer, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A17 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    fn fixup(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for A17 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A17_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static A17_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a17_new() -> Handle { Handle::S(A17::new()) }
fn a17_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A17::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), _ => b }, |x| Handle::S(x))
}
pub static A17_META: Meta = Meta { name: "A17", fields: A17_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: true, new: a17_new, dflt: None, make: Some(a17_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A17))]
pub use m_A17::*;

// shape A18
#[cfg(not(fx_no_A18))]
mod m_A18 {
use super::*;
#[fxstruct(r#async, no_new, default, predicate, clearer)]
#[derive(Debug)]
pub struct A18 {
    #[fieldx(lazy, get, set)]
    a: Val,
    #[fieldx(reader, writer, set)]
    b: Val,
    #[fieldx(lazy, get(clone), writer, default(vd(9000042)))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A18 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_c(&self) -> Val { hook::a_build(self, 2).await }
}
impl Obj for A18 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A18_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 2 => self.has_c(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 1 => Box::pin(async move { self.read_b().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { lazy_wg!(self.write_c().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A18_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: true, ops: 83, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000042), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a18_new() -> Handle { Handle::S(arc(A18::default())) }
fn a18_dflt() -> Handle { Handle::S(arc(A18::default())) }
pub static A18_META: Meta = Meta { name: "A18", fields: A18_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a18_new, dflt: Some(a18_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A18))]
pub use m_A18::*;

// shape A19
#[cfg(not(fx_no_A19))]
mod m_A19 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A19 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, reader, writer, set, clearer)]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(lock, reader, writer, set)]
    e: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A19 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Val, Er> { hook::a_build_f(self, 2).await }
}
impl Obj for A19 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A19_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 2 => self.has_d(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_c().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 2 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_c().await.rg() }), 2 => Box::pin(async move { self.read_d().await.rg() }), 3 => Box::pin(async move { self.read_e().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 2 => Box::pin(async move { self.d_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_c().await.wg() }), 2 => Box::pin(async move { lazy_wg!(self.write_d().await, Val) }), 3 => Box::pin(async move { self.write_e().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_e(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_c().await.old() }), 2 => Box::pin(async move { self.clear_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A19_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "c", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: true, ops: 52, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn a19_new() -> Handle { Handle::S(arc(A19::new())) }
fn a19_dflt() -> Handle { Handle::S(arc(A19::default())) }
pub static A19_META: Meta = Meta { name: "A19", fields: A19_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: a19_new, dflt: Some(a19_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A19))]
pub use m_A19::*;

// shape A20
#[cfg(not(fx_no_A20))]
mod m_A20 {
use super::*;
#[fxstruct(r#async, serde(serialize(off)), builder)]
#[derive(Debug)]
pub struct A20 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)), default(vd(9000066)), serde(default(vd(9000065))))]
    c: Val,
    #[fieldx(lock, get, reader, writer, set)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl A20 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_c(&self) -> Result<Val, Er> { hook::a_build_f(self, 2).await }
}
impl Obj for A20 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A20_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 2 => self.has_c(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 2 => Box::pin(async move { self.c_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { lazy_wg!(self.write_c().await, Val) }), 3 => Box::pin(async move { self.write_d().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A20_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000066), b_set: true, b_into: false, b_req: false, ser: false, de: true, de_dflt: Some(9000065), key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: true, de_dflt: None, key: "d" },
];
fn a20_new() -> Handle { Handle::S(arc(A20::new())) }
fn a20_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A20::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn a20_dflt() -> Handle { Handle::S(arc(A20::default())) }
fn a20_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<A20>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static A20_META: Meta = Meta { name: "A20", fields: A20_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: true, rc: false, deny: false, blocking: true, new: a20_new, dflt: Some(a20_dflt), make: Some(a20_make), post: false, post_fallible: false, deser: Some(a20_de), de_struct_default: false };
}
#[cfg(not(fx_no_A20))]
pub use m_A20::*;

// shape A21
#[cfg(not(fx_no_A21))]
mod m_A21 {
use super::*;
#[fxstruct(r#async, builder)]
#[derive(Debug)]
pub struct A21 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    e: Val,
    #[fieldx(optional, predicate, reader, writer, set, clearer)]
    f: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000081)))]
    g: Val,
    #[fieldx(lazy, get, reader, writer)]
    h: Val,
    #[fieldx(optional, predicate, writer, clearer)]
    i: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    j: Val,
    #[fieldx(lock, get, reader, writer, set)]
    k: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    l: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A21 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Val, Er> { hook::a_build_f(self, 3).await }
    async fn build_e(&self) -> Val { hook::a_build(self, 4).await }
    async fn build_g(&self) -> Val { hook::a_build(self, 6).await }
    async fn build_h(&self) -> Val { hook::a_build(self, 7).await }
    async fn build_j(&self) -> Val { hook::a_build(self, 9).await }
    async fn build_l(&self) -> Result<Val, Er> { hook::a_build_f(self, 11).await }
}
impl Obj for A21 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A21_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 3 => self.has_d(), 4 => self.has_e(), 6 => self.has_g(), 9 => self.has_j(), 11 => self.has_l(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), 5 => Box::pin(async move { self.has_f().await }), 8 => Box::pin(async move { self.has_i().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), 4 => Box::pin(async move { self.e().await.rg() }), 6 => Box::pin(async move { self.g().await.rg() }), 7 => Box::pin(async move { self.h().await.rg() }), 9 => Box::pin(async move { self.j().await.rg() }), 10 => Box::pin(async move { self.k().await.rg() }), 11 => Box::pin(async move { self.l().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), 4 => Box::pin(async move { self.read_e().await.rg() }), 5 => Box::pin(async move { self.read_f().await.rg() }), 6 => Box::pin(async move { self.read_g().await.rg() }), 7 => Box::pin(async move { self.read_h().await.rg() }), 9 => Box::pin(async move { self.read_j().await.rg() }), 10 => Box::pin(async move { self.read_k().await.rg() }), 11 => Box::pin(async move { self.read_l().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 3 => Box::pin(async move { self.d_mut().await.wg() }), 4 => Box::pin(async move { self.e_mut().await.wg() }), 6 => Box::pin(async move { self.g_mut().await.wg() }), 9 => Box::pin(async move { self.j_mut().await.wg() }), 11 => Box::pin(async move { self.l_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), 3 => Box::pin(async move { lazy_wg!(self.write_d().await, Val) }), 4 => Box::pin(async move { lazy_wg!(self.write_e().await, Val) }), 5 => Box::pin(async move { self.write_f().await.wg() }), 6 => Box::pin(async move { lazy_wg!(self.write_g().await, Val) }), 7 => Box::pin(async move { lazy_wg!(self.write_h().await, Val) }), 8 => Box::pin(async move { self.write_i().await.wg() }), 9 => Box::pin(async move { lazy_wg!(self.write_j().await, Val) }), 10 => Box::pin(async move { self.write_k().await.wg() }), 11 => Box::pin(async move { lazy_wg!(self.write_l().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), 4 => Box::pin(async move { self.set_e(<Val as FxV>::mk(id)).await.old() }), 5 => Box::pin(async move { self.set_f(<Val as FxV>::mk(id)).await.old() }), 6 => Box::pin(async move { self.set_g(<Val as FxV>::mk(id)).await.old() }), 9 => Box::pin(async move { self.set_j(<Val as FxV>::mk(id)).await.old() }), 10 => Box::pin(async move { self.set_k(<Val as FxV>::mk(id)).await.old() }), 11 => Box::pin(async move { self.set_l(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 3 => Box::pin(async move { self.clear_d().await.old() }), 4 => Box::pin(async move { self.clear_e().await.old() }), 5 => Box::pin(async move { self.clear_f().await.old() }), 6 => Box::pin(async move { self.clear_g().await.old() }), 8 => Box::pin(async move { self.clear_i().await.old() }), 9 => Box::pin(async move { self.clear_j().await.old() }), 11 => Box::pin(async move { self.clear_l().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A21_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: true, ops: 117, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000081), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "g" },
    FieldMeta { name: "h", k: K::Lazy, a: true, ops: 22, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "h" },
    FieldMeta { name: "i", k: K::Opt, a: true, ops: 81, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "i" },
    FieldMeta { name: "j", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "k" },
    FieldMeta { name: "l", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "l" },
];
fn a21_new() -> Handle { Handle::S(arc(A21::new())) }
fn a21_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A21::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.h(Val::mk(id(7))), 8 => b.i(Val::mk(id(8))), 9 => b.j(Val::mk(id(9))), 10 => b.k(Val::mk(id(10))), 11 => b.l(Val::mk(id(11))), _ => b }, |x| Handle::S(arc(x)))
}
fn a21_dflt() -> Handle { Handle::S(arc(A21::default())) }
pub static A21_META: Meta = Meta { name: "A21", fields: A21_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a21_new, dflt: Some(a21_dflt), make: Some(a21_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A21))]
pub use m_A21::*;

// shape P01
#[cfg(not(fx_no_P01))]
mod m_P01 {
use super::*;
#[fxstruct]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct P01 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get(copy), get_mut, set, clearer)]
    c: Cid,
    #[fieldx(lazy, predicate, get, get_mut, set(into), clearer)]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P01 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Cid { hook::build(self, 2) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for P01 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P01_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(In(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P01_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p01_new() -> Handle { Handle::B(boxed(P01::new())) }
fn p01_dflt() -> Handle { Handle::B(boxed(P01::default())) }
pub static P01_META: Meta = Meta { name: "P01", fields: P01_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p01_new, dflt: Some(p01_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P01))]
pub use m_P01::*;

// shape P02
#[cfg(not(fx_no_P02))]
mod m_P02 {
use super::*;
#[fxstruct]
#[derive(Clone, Debug)]
pub struct P02 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, fallible(error(Er)))]
    a: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P02 {
    fn build_a(&self) -> Result<Val, Er> { hook::build_f(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_c(&self) -> Val { hook::build(self, 2) }
}
impl Obj for P02 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P02_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P02_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p02_new() -> Handle { Handle::B(boxed(P02::new())) }
fn p02_dflt() -> Handle { Handle::B(boxed(P02::default())) }
pub static P02_META: Meta = Meta { name: "P02", fields: P02_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p02_new, dflt: Some(p02_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P02))]
pub use m_P02::*;

// shape P03
#[cfg(not(fx_no_P03))]
mod m_P03 {
use super::*;
#[fxstruct(builder)]
#[derive(Clone, Debug)]
pub struct P03 {
    #[fieldx(lazy, predicate, get, get_mut, set(into), clearer, default(vd(9000001)))]
    a: Val,
    #[fieldx(lazy, predicate, get, get_mut, set(into), clearer, builder(into))]
    b: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000003)))]
    c: Val,
    #[fieldx(get, get_mut, set, default(vd(9000004)))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P03 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for P03 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P03_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(In(id)).old(), 1 => self.set_b(In(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P03_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: Some(9000001), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000003), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000004), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p03_new() -> Handle { Handle::B(boxed(P03::new())) }
fn p03_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P03::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(In(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p03_dflt() -> Handle { Handle::B(boxed(P03::default())) }
pub static P03_META: Meta = Meta { name: "P03", fields: P03_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p03_new, dflt: Some(p03_dflt), make: Some(p03_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P03))]
pub use m_P03::*;

// shape P04
#[cfg(not(fx_no_P04))]
mod m_P04 {
use super::*;
#[fxstruct(lazy, get, set, predicate, clearer, get_mut)]
#[derive(Clone, Debug)]
pub struct P04 {
    a: Val,
    #[fieldx(get(clone))]
    b: Val,
    #[fieldx(fallible(error(Er)))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P04 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_c(&self) -> Result<Val, Er> { hook::build_f(self, 2) }
}
impl Obj for P04 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P04_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P04_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p04_new() -> Handle { Handle::B(boxed(P04::new())) }
fn p04_dflt() -> Handle { Handle::B(boxed(P04::default())) }
pub static P04_META: Meta = Meta { name: "P04", fields: P04_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p04_new, dflt: Some(p04_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P04))]
pub use m_P04::*;

// shape P05
#[cfg(not(fx_no_P05))]
mod m_P05 {
use super::*;
#[fxstruct]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct P05 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, clearer)]
    b: Val,
    #[fieldx(optional, predicate, get(copy), get_mut, set, clearer)]
    c: Cid,
    #[fieldx(optional, predicate, get_mut, set, clearer, get(as_ref))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for P05 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P05_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => rg_opt(self.d()), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P05_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p05_new() -> Handle { Handle::B(boxed(P05::new())) }
fn p05_dflt() -> Handle { Handle::B(boxed(P05::default())) }
pub static P05_META: Meta = Meta { name: "P05", fields: P05_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p05_new, dflt: Some(p05_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P05))]
pub use m_P05::*;

// shape P06
#[cfg(not(fx_no_P06))]
mod m_P06 {
use super::*;
#[fxstruct]
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct P06 {
    #[fieldx(get, get_mut, set)]
    a: Val,
    #[fieldx(get(clone), get_mut, set, default(vd(9000002)))]
    b: Val,
    #[fieldx(get(copy), get_mut, set)]
    c: Cid,
    #[fieldx(get, get_mut, set(into))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for P06 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P06_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(In(id)).old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P06_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 42, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000002), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p06_new() -> Handle { Handle::B(boxed(P06::new())) }
fn p06_dflt() -> Handle { Handle::B(boxed(P06::default())) }
pub static P06_META: Meta = Meta { name: "P06", fields: P06_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p06_new, dflt: Some(p06_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P06))]
pub use m_P06::*;

// shape P07
#[cfg(not(fx_no_P07))]
mod m_P07 {
use super::*;
#[fxstruct]
#[derive(Clone, Debug)]
pub struct P07 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    a: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, clearer, inner_mut)]
    b: Val,
    #[fieldx(get, get_mut, set, inner_mut)]
    c: Val,
    #[fieldx(get(copy), get_mut, set, default(cd(9000007)), inner_mut)]
    d: Cid,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    e: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P07 {
    fn build_e(&self) -> Val { hook::build(self, 4) }
}
impl Obj for P07 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P07_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 4 => self.clear_e().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P07_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: false, default: Some(9000007), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn p07_new() -> Handle { Handle::B(boxed(P07::new())) }
fn p07_dflt() -> Handle { Handle::B(boxed(P07::default())) }
pub static P07_META: Meta = Meta { name: "P07", fields: P07_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p07_new, dflt: Some(p07_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P07))]
pub use m_P07::*;

// shape P08
#[cfg(not(fx_no_P08))]
mod m_P08 {
use super::*;
#[fxstruct]
#[derive(Clone, Debug)]
pub struct P08<T: GenV> {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: T,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: T,
    #[fieldx(get, get_mut, set)]
    c: T,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl<T: GenV> P08<T> {
    fn build_a(&self) -> T { hook::build(self, 0) }
}
impl<T: GenV> Obj for P08<T> {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P08_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<T as FxV>::mk(id)).old(), 1 => self.set_b(<T as FxV>::mk(id)).old(), 2 => self.set_c(<T as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P08_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p08_new() -> Handle { Handle::B(boxed(P08::<Val>::new())) }
fn p08_dflt() -> Handle { Handle::B(boxed(P08::<Val>::default())) }
pub static P08_META: Meta = Meta { name: "P08", fields: P08_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p08_new, dflt: Some(p08_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P08))]
pub use m_P08::*;

// shape P09
#[cfg(not(fx_no_P09))]
mod m_P09 {
use super::*;
#[fxstruct(rc, builder)]
#[derive(Debug)]
pub struct P09 {
    #[fieldx(lazy, predicate, get)]
    a: Val,
    #[fieldx(lazy, predicate, get, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    c: Val,
    #[fieldx(get, get_mut, set, default(vd(9000008)), inner_mut)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P09 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
}
impl Obj for P09 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P09_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::P(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::P(x))) }
}
static P09_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 3, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 3, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(9000008), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p09_new() -> Handle { Handle::P(P09::new()) }
fn p09_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P09::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::P(x))
}
pub static P09_META: Meta = Meta { name: "P09", fields: P09_FIELDS, plain: true, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: p09_new, dflt: None, make: Some(p09_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P09))]
pub use m_P09::*;

// shape P10
#[cfg(not(fx_no_P10))]
mod m_P10 {
use super::*;
#[fxstruct(builder(post_build(fixup)))]
#[derive(Debug)]
pub struct P10 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, builder(required))]
    b: Val,
    #[fieldx(get, get_mut, set)]
    c: Val,
    #[fieldx(get, get_mut, set, default(vd(9000006)))]
    d: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000021)))]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P10 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn fixup(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for P10 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P10_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 4 => self.clear_e().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P10_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000006), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000021), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn p10_new() -> Handle { Handle::B(boxed(P10::new())) }
fn p10_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P10::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p10_dflt() -> Handle { Handle::B(boxed(P10::default())) }
pub static P10_META: Meta = Meta { name: "P10", fields: P10_FIELDS, plain: true, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p10_new, dflt: Some(p10_dflt), make: Some(p10_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P10))]
pub use m_P10::*;

// shape P11
#[cfg(not(fx_no_P11))]
mod m_P11 {
use super::*;
#[fxstruct(builder(error(BErr), post_build(fixup)))]
#[derive(Debug)]
pub struct P11 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, builder(into))]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set, builder(into))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P11 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn fixup(self) -> Result<Self, BErr> { hook::post(&self).map_err(|e| BErr::Post(e.0))?; Ok(self) }
}
impl Obj for P11 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P11_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P11_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p11_new() -> Handle { Handle::B(boxed(P11::new())) }
fn p11_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P11::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(In(id(2))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p11_dflt() -> Handle { Handle::B(boxed(P11::default())) }
pub static P11_META: Meta = Meta { name: "P11", fields: P11_FIELDS, plain: true, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p11_new, dflt: Some(p11_dflt), make: Some(p11_make), post: true, post_fallible: true, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P11))]
pub use m_P11::*;

// shape P12
#[cfg(not(fx_no_P12))]
mod m_P12 {
use super::*;
#[fxstruct(serde)]
#[derive(Clone, Debug)]
pub struct P12 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    c: Val,
    #[fieldx(get, get_mut, set)]
    d: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, serde(off))]
    f: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P12 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_f(&self) -> Val { hook::build(self, 4) }
}
impl Obj for P12 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P12_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 4 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.f().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.f_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 4 => self.clear_f().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P12_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "f", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
];
fn p12_new() -> Handle { Handle::B(boxed(P12::new())) }
fn p12_dflt() -> Handle { Handle::B(boxed(P12::default())) }
fn p12_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P12>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P12_META: Meta = Meta { name: "P12", fields: P12_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p12_new, dflt: Some(p12_dflt), make: None, post: false, post_fallible: false, deser: Some(p12_de), de_struct_default: false };
}
#[cfg(not(fx_no_P12))]
pub use m_P12::*;

// shape P13
#[cfg(not(fx_no_P13))]
mod m_P13 {
use super::*;
#[fxstruct(builder, serde("P13Dup", default))]
#[derive(Clone, Debug)]
pub struct P13 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, default(vd(9000009)))]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    c: Val,
    #[fieldx(get, get_mut, set, default(vd(9000023)), serde(default(vd(9000022))))]
    d: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, serde(deserialize(off)))]
    j: Val,
    #[fieldx(get, get_mut, set, inner_mut)]
    m: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    n: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P13 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P13 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P13_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_c(), 3 => self.has_j(), 5 => self.has_n(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.c().rg(), 2 => self.d().rg(), 3 => self.j().rg(), 4 => self.m().rg(), 5 => self.n().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 4 => self.m_mut().wg(), 5 => self.n_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 4 => self.set_m(<Val as FxV>::mk(id)).old(), 5 => self.set_n(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 5 => self.clear_n().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.c_mut().wg(), 2 => self.d_mut().wg(), 3 => self.j_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_c(<Val as FxV>::mk(id)).old(), 2 => self.set_d(<Val as FxV>::mk(id)).old(), 3 => self.set_j(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_c().old(), 3 => self.clear_j().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P13_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000009), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000023), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000022), key: "d" },
    FieldMeta { name: "j", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: false, de_dflt: None, key: "j" },
    FieldMeta { name: "m", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "m" },
    FieldMeta { name: "n", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "n" },
];
fn p13_new() -> Handle { Handle::B(boxed(P13::new())) }
fn p13_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P13::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.c(Val::mk(id(1))), 2 => b.d(Val::mk(id(2))), 3 => b.j(Val::mk(id(3))), 4 => b.m(Val::mk(id(4))), 5 => b.n(Val::mk(id(5))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p13_dflt() -> Handle { Handle::B(boxed(P13::default())) }
fn p13_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P13>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P13_META: Meta = Meta { name: "P13", fields: P13_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p13_new, dflt: Some(p13_dflt), make: Some(p13_make), post: false, post_fallible: false, deser: Some(p13_de), de_struct_default: true };
}
#[cfg(not(fx_no_P13))]
pub use m_P13::*;

// shape P14
#[cfg(not(fx_no_P14))]
mod m_P14 {
use super::*;
#[fxstruct(lazy, predicate, clearer)]
#[derive(Clone, Debug)]
pub struct P14 {
    #[fieldx(get, set)]
    a: Val,
    #[fieldx(lazy("make_b"), get, get_mut)]
    b: Val,
    #[fieldx(lazy(off), predicate(off), clearer(off), get, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P14 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn make_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for P14 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P14_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.b_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P14_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 96, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 75, excl: 72, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 32, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p14_new() -> Handle { Handle::B(boxed(P14::new())) }
fn p14_dflt() -> Handle { Handle::B(boxed(P14::default())) }
pub static P14_META: Meta = Meta { name: "P14", fields: P14_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p14_new, dflt: Some(p14_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P14))]
pub use m_P14::*;

// shape P15
#[cfg(not(fx_no_P15))]
mod m_P15 {
use super::*;
#[fxstruct(rc)]
pub struct P15 {
    #[fieldx(lazy, predicate, get)]
    a: Val,
    #[fieldx(lazy, predicate, get(clone))]
    b: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P15 {
    fn build_a(self: std::rc::Rc<Self>) -> Val { hook::build(&*self, 0) }
    fn build_b(self: std::rc::Rc<Self>) -> Val { hook::build(&*self, 1) }
}
impl Obj for P15 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P15_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::P(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::P(x))) }
}
static P15_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 3, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 3, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn p15_new() -> Handle { Handle::P(P15::new()) }
pub static P15_META: Meta = Meta { name: "P15", fields: P15_FIELDS, plain: true, clone: false, eq: false, dbg: false, ser: false, de: false, rc: true, deny: false, blocking: false, new: p15_new, dflt: None, make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P15))]
pub use m_P15::*;

// shape P16
#[cfg(not(fx_no_P16))]
mod m_P16 {
use super::*;
#[fxstruct(builder(error(BErr, BErr::Unset), into), into)]
#[derive(Debug)]
pub struct P16 {
    #[fieldx(lazy, predicate, get, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, set, clearer, builder(required))]
    b: Val,
    #[fieldx(get, set)]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P16 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P16 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P16_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(In(id)).old(), 1 => self.set_b(In(id)).old(), 2 => self.set_c(In(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P16_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 96, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 99, excl: 96, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 32, owned: false, fallible: false, unwraps: 0, into: true, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p16_new() -> Handle { Handle::B(boxed(P16::new())) }
fn p16_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P16::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), 2 => b.c(In(id(2))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p16_dflt() -> Handle { Handle::B(boxed(P16::default())) }
pub static P16_META: Meta = Meta { name: "P16", fields: P16_FIELDS, plain: true, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p16_new, dflt: Some(p16_dflt), make: Some(p16_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P16))]
pub use m_P16::*;

// shape P17
#[cfg(not(fx_no_P17))]
mod m_P17 {
use super::*;
#[fxstruct(serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct P17 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000050)))]
    a: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, default(vd(9000051)))]
    b: Val,
    #[fieldx(get, get_mut, set, default(vd(9000052)))]
    c: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000053)), inner_mut)]
    d: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, rename("epsilon"))]
    e: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, serde(default(vd(9000054))))]
    f: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P17 {
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_f(&self) -> Val { hook::build(self, 5) }
}
impl Obj for P17 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P17_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_epsilon(), 5 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.epsilon().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 3 => self.clear_d().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 4 => self.epsilon_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 4 => self.set_epsilon(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 4 => self.clear_epsilon().old(), 5 => self.clear_f().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P17_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000050), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000051), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000052), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(9000053), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "epsilon" },
    FieldMeta { name: "f", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000054), key: "f" },
];
fn p17_new() -> Handle { Handle::B(boxed(P17::new())) }
fn p17_dflt() -> Handle { Handle::B(boxed(P17::default())) }
fn p17_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P17>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P17_META: Meta = Meta { name: "P17", fields: P17_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p17_new, dflt: Some(p17_dflt), make: None, post: false, post_fallible: false, deser: Some(p17_de), de_struct_default: false };
}
#[cfg(not(fx_no_P17))]
pub use m_P17::*;

// shape P18
#[cfg(not(fx_no_P18))]
mod m_P18 {
use super::*;
#[fxstruct(no_new, default, get, set, predicate, clearer)]
#[derive(Clone, PartialEq, Debug)]
pub struct P18 {
    #[fieldx(lazy, default(vd(9000055)))]
    a: Val,
    #[fieldx(get_mut)]
    b: Val,
    #[fieldx(predicate(off), clearer(off))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P18 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P18 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P18_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.b_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P18_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 96, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000055), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 32, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p18_new() -> Handle { Handle::B(boxed(P18::default())) }
fn p18_dflt() -> Handle { Handle::B(boxed(P18::default())) }
pub static P18_META: Meta = Meta { name: "P18", fields: P18_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p18_new, dflt: Some(p18_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P18))]
pub use m_P18::*;

// shape P19
#[cfg(not(fx_no_P19))]
mod m_P19 {
use super::*;
#[fxstruct(builder("with_", opt_in))]
#[derive(Clone, Debug)]
pub struct P19 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, builder)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set, builder(into))]
    c: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, builder(required))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P19 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P19 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P19_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P19_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p19_new() -> Handle { Handle::B(boxed(P19::new())) }
fn p19_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P19::builder(), |b, f| match f { 0 => b.with_a(Val::mk(id(0))), 2 => b.with_c(In(id(2))), 3 => b.with_d(Val::mk(id(3))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p19_dflt() -> Handle { Handle::B(boxed(P19::default())) }
pub static P19_META: Meta = Meta { name: "P19", fields: P19_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p19_new, dflt: Some(p19_dflt), make: Some(p19_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P19))]
pub use m_P19::*;

// shape P20
#[cfg(not(fx_no_P20))]
mod m_P20 {
use super::*;
#[fxstruct(serde("P20Dup", default(Self::sdef())))]
#[derive(Clone, Debug)]
pub struct P20 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set)]
    c: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
pub struct Sd20;
impl P20 { fn sdef() -> Sd20 { Sd20 } }
impl From<Sd20> for P20Dup { fn from(_: Sd20) -> P20Dup { P20Dup { a: Some(vd(9000056)), b: Some(vd(9000057)), c: vd(9000058), d: None } } }

impl P20 {
    fn build_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for P20 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P20_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P20_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000056), key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000057), key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000058), key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
];
fn p20_new() -> Handle { Handle::B(boxed(P20::new())) }
fn p20_dflt() -> Handle { Handle::B(boxed(P20::default())) }
fn p20_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P20>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P20_META: Meta = Meta { name: "P20", fields: P20_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p20_new, dflt: Some(p20_dflt), make: None, post: false, post_fallible: false, deser: Some(p20_de), de_struct_default: false };
}
#[cfg(not(fx_no_P20))]
pub use m_P20::*;

// shape P21
#[cfg(not(fx_no_P21))]
mod m_P21 {
use super::*;
#[fxstruct(rc, builder(into))]
#[derive(Debug)]
pub struct P21 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    a: Val,
    #[fieldx(get, get_mut, set, inner_mut)]
    b: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl Obj for P21 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P21_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::P(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::P(x))) }
}
static P21_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "b" },
];
fn p21_new() -> Handle { Handle::P(P21::new()) }
fn p21_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P21::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), _ => b }, |x| Handle::P(x))
}
pub static P21_META: Meta = Meta { name: "P21", fields: P21_FIELDS, plain: true, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: p21_new, dflt: None, make: Some(p21_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P21))]
pub use m_P21::*;

// shape P22
#[cfg(not(fx_no_P22))]
mod m_P22 {
use super::*;
#[fxstruct(inner_mut, get, get_mut, set, builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct P22 {
    #[fieldx(get(clone))]
    a: Val,
    #[fieldx(optional, predicate, clearer)]
    b: Val,
    #[fieldx(default(cd(9000059)), get(copy))]
    c: Cid,
    #[fieldx(inner_mut(off), lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl Obj for P22 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P22_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P22_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 42, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: false, default: Some(9000059), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p22_new() -> Handle { Handle::B(boxed(P22::new())) }
fn p22_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P22::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Cid::mk(id(2))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p22_dflt() -> Handle { Handle::B(boxed(P22::default())) }
pub static P22_META: Meta = Meta { name: "P22", fields: P22_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p22_new, dflt: Some(p22_dflt), make: Some(p22_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P22))]
pub use m_P22::*;

// shape P23
#[cfg(not(fx_no_P23))]
mod m_P23 {
use super::*;
#[fxstruct(serde(default))]
#[derive(Clone, PartialEq, Debug)]
pub struct P23 {
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000070)))]
    a: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, default(vd(9000071)))]
    b: Val,
    #[fieldx(get, get_mut, set, default(vd(9000072)))]
    c: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000073)), inner_mut)]
    d: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    e: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P23 {
    fn build_b(&self) -> Val { hook::build(self, 1) }
}
impl Obj for P23 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P23_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 3 => self.clear_d().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 4 => self.clear_e().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P23_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000070), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000071), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000072), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(9000073), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
];
fn p23_new() -> Handle { Handle::B(boxed(P23::new())) }
fn p23_dflt() -> Handle { Handle::B(boxed(P23::default())) }
fn p23_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P23>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P23_META: Meta = Meta { name: "P23", fields: P23_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p23_new, dflt: Some(p23_dflt), make: None, post: false, post_fallible: false, deser: Some(p23_de), de_struct_default: true };
}
#[cfg(not(fx_no_P23))]
pub use m_P23::*;

// shape P24
#[cfg(not(fx_no_P24))]
mod m_P24 {
use super::*;
#[fxstruct(builder, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct P24 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set)]
    c: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    e: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    f: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, default(vd(9000082)))]
    g: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    h: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    i: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    j: Val,
    #[fieldx(get, get_mut, set)]
    k: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, fallible(error(Er)))]
    l: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P24 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
    fn build_e(&self) -> Val { hook::build(self, 4) }
    fn build_g(&self) -> Val { hook::build(self, 6) }
    fn build_j(&self) -> Val { hook::build(self, 9) }
    fn build_l(&self) -> Result<Val, Er> { hook::build_f(self, 11) }
}
impl Obj for P24 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P24_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), 5 => self.has_f(), 6 => self.has_g(), 7 => self.has_h(), 8 => self.has_i(), 9 => self.has_j(), 11 => self.has_l(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), 6 => self.g().rg(), 7 => self.h().rg(), 8 => self.i().rg(), 9 => self.j().rg(), 10 => self.k().rg(), 11 => self.l().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 5 => self.clear_f().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 6 => self.g_mut().wg(), 7 => self.h_mut().wg(), 8 => self.i_mut().wg(), 9 => self.j_mut().wg(), 10 => self.k_mut().wg(), 11 => self.l_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 6 => self.set_g(<Val as FxV>::mk(id)).old(), 7 => self.set_h(<Val as FxV>::mk(id)).old(), 8 => self.set_i(<Val as FxV>::mk(id)).old(), 9 => self.set_j(<Val as FxV>::mk(id)).old(), 10 => self.set_k(<Val as FxV>::mk(id)).old(), 11 => self.set_l(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), 6 => self.clear_g().old(), 7 => self.clear_h().old(), 8 => self.clear_i().old(), 9 => self.clear_j().old(), 11 => self.clear_l().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P24_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000082), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "g" },
    FieldMeta { name: "h", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "h" },
    FieldMeta { name: "i", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "i" },
    FieldMeta { name: "j", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "k" },
    FieldMeta { name: "l", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "l" },
];
fn p24_new() -> Handle { Handle::B(boxed(P24::new())) }
fn p24_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P24::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.h(Val::mk(id(7))), 8 => b.i(Val::mk(id(8))), 9 => b.j(Val::mk(id(9))), 10 => b.k(Val::mk(id(10))), 11 => b.l(Val::mk(id(11))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p24_dflt() -> Handle { Handle::B(boxed(P24::default())) }
fn p24_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P24>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P24_META: Meta = Meta { name: "P24", fields: P24_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p24_new, dflt: Some(p24_dflt), make: Some(p24_make), post: false, post_fallible: false, deser: Some(p24_de), de_struct_default: false };
}
#[cfg(not(fx_no_P24))]
pub use m_P24::*;

// shape S39
#[cfg(not(fx_no_S39))]
mod m_S39 {
use super::*;
#[fxstruct]
#[derive(Clone, Debug)]
pub struct S39 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, sync)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, sync)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, sync)]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)), sync)]
    d: Val,
    #[fieldx(get)]
    e: Val,
    #[fieldx(sync, reader, writer, set)]
    f: Val,
    #[fieldx(sync, writer, set)]
    g: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S39 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for S39 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S39_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 5 => self.read_f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 5 => self.write_f().wg(), 6 => self.write_g().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), 6 => self.set_g(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S39_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 2, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Eager, a: false, ops: 52, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Eager, a: false, ops: 48, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "g" },
];
fn s39_new() -> Handle { Handle::S(arc(S39::new())) }
fn s39_dflt() -> Handle { Handle::S(arc(S39::default())) }
pub static S39_META: Meta = Meta { name: "S39", fields: S39_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s39_new, dflt: Some(s39_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S39))]
pub use m_S39::*;

// shape S40
#[cfg(not(fx_no_S40))]
mod m_S40 {
use super::*;
#[fxstruct(sync, get("get_"), set("put_"), clearer("reset_"), predicate("is_"), reader("rd_"), writer("wr_"), get_mut("mut_"), builder("give_"))]
#[derive(Clone, Debug)]
pub struct S40 {
    #[fieldx(lazy)]
    a: Val,
    #[fieldx(optional)]
    b: Val,
    #[fieldx(lock, clearer(off), predicate(off))]
    c: Val,
    #[fieldx(lazy, fallible(error(Er)), get(clone))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S40 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for S40 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S40_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.is_a(), 1 => self.is_b(), 3 => self.is_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.get_a().rg(), 1 => self.get_b().rg(), 2 => self.get_c().rg(), 3 => self.get_d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.rd_a().rg(), 1 => self.rd_b().rg(), 2 => self.rd_c().rg(), 3 => self.rd_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.mut_a_mut().wg(), 1 => self.mut_b_mut().wg(), 2 => self.mut_c_mut().wg(), 3 => self.mut_d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.wr_a(), Val), 1 => self.wr_b().wg(), 2 => self.wr_c().wg(), 3 => lazy_wg!(self.wr_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.put_a(<Val as FxV>::mk(id)).old(), 1 => self.put_b(<Val as FxV>::mk(id)).old(), 2 => self.put_c(<Val as FxV>::mk(id)).old(), 3 => self.put_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.reset_a().old(), 1 => self.reset_b().old(), 3 => self.reset_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S40_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s40_new() -> Handle { Handle::S(arc(S40::new())) }
fn s40_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S40::builder(), |b, f| match f { 0 => b.give_a(Val::mk(id(0))), 1 => b.give_b(Val::mk(id(1))), 2 => b.give_c(Val::mk(id(2))), 3 => b.give_d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s40_dflt() -> Handle { Handle::S(arc(S40::default())) }
pub static S40_META: Meta = Meta { name: "S40", fields: S40_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s40_new, dflt: Some(s40_dflt), make: Some(s40_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S40))]
pub use m_S40::*;

// shape S41
#[cfg(not(fx_no_S41))]
mod m_S41 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct S41 {
    #[fieldx(lazy("mk_a"), builder("hand_a"), get("the_a"), predicate("there_a"), reader("peek_a"), get_mut("edit_a"), writer("hold_a"), set("swap_a"), clearer("drop_a"))]
    a: Val,
    #[fieldx(optional, builder("hand_b", into), get("the_b"), predicate("there_b"), reader("peek_b"), get_mut("edit_b"), writer("hold_b"), set("swap_b"), clearer("drop_b"))]
    b: Val,
    #[fieldx(lock, get("the_c"), reader("peek_c"), get_mut("edit_c"), writer("hold_c"), set("swap_c"))]
    c: Val,
    #[fieldx(lazy, fallible(error(Er)), get("the_d", clone), predicate("there_d"), reader("peek_d"), get_mut("edit_d"), writer("hold_d"), set("swap_d"), clearer("drop_d"))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S41 {
    fn mk_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for S41 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S41_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.there_a(), 1 => self.there_b(), 3 => self.there_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.the_a().rg(), 1 => self.the_b().rg(), 2 => self.the_c().rg(), 3 => self.the_d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.peek_a().rg(), 1 => self.peek_b().rg(), 2 => self.peek_c().rg(), 3 => self.peek_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.edit_a().wg(), 1 => self.edit_b().wg(), 2 => self.edit_c().wg(), 3 => self.edit_d().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.hold_a(), Val), 1 => self.hold_b().wg(), 2 => self.hold_c().wg(), 3 => lazy_wg!(self.hold_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.swap_a(<Val as FxV>::mk(id)).old(), 1 => self.swap_b(<Val as FxV>::mk(id)).old(), 2 => self.swap_c(<Val as FxV>::mk(id)).old(), 3 => self.swap_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.drop_a().old(), 1 => self.drop_b().old(), 3 => self.drop_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S41_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s41_new() -> Handle { Handle::S(arc(S41::new())) }
fn s41_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S41::builder(), |b, f| match f { 0 => b.hand_a(Val::mk(id(0))), 1 => b.hand_b(In(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s41_dflt() -> Handle { Handle::S(arc(S41::default())) }
pub static S41_META: Meta = Meta { name: "S41", fields: S41_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s41_new, dflt: Some(s41_dflt), make: Some(s41_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S41))]
pub use m_S41::*;

// shape S42
#[cfg(not(fx_no_S42))]
mod m_S42 {
use super::*;
#[fxstruct(sync, lazy, clone, get, set, predicate, clearer, writer)]
#[derive(Clone, Debug)]
pub struct S42 {
    a: Val,
    #[fieldx(fallible(error(Er)))]
    b: Val,
    #[fieldx(copy)]
    c: Cid,
    #[fieldx(lazy(off), optional)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S42 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_c(&self) -> Cid { hook::build(self, 2) }
}
impl Obj for S42 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S42_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Cid), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S42_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 115, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 115, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 115, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 115, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s42_new() -> Handle { Handle::S(arc(S42::new())) }
fn s42_dflt() -> Handle { Handle::S(arc(S42::default())) }
pub static S42_META: Meta = Meta { name: "S42", fields: S42_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s42_new, dflt: Some(s42_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S42))]
pub use m_S42::*;

// shape S43
#[cfg(not(fx_no_S43))]
mod m_S43 {
use super::*;
#[fxstruct(sync, fallible(off, error(Er)), builder(into))]
#[derive(Debug)]
pub struct S43 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible)]
    b: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible)]
    c: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S43 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_c(&self) -> Result<Val, Er> { hook::build_f(self, 2) }
}
impl Obj for S43 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S43_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => lazy_wg!(self.write_b(), Val), 2 => lazy_wg!(self.write_c(), Val), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S43_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s43_new() -> Handle { Handle::S(arc(S43::new())) }
fn s43_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S43::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), 2 => b.c(In(id(2))), 3 => b.d(In(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s43_dflt() -> Handle { Handle::S(arc(S43::default())) }
pub static S43_META: Meta = Meta { name: "S43", fields: S43_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s43_new, dflt: Some(s43_dflt), make: Some(s43_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S43))]
pub use m_S43::*;

// shape S44
#[cfg(not(fx_no_S44))]
mod m_S44 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, Debug)]
pub struct S44<T: GenV, const N: usize> where T: Clone {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: T,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: T,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: T,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: T,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(std::marker::PhantomData))]
    mark: std::marker::PhantomData<[u8; N]>,
}
impl<T: GenV, const N: usize> S44<T, N> where T: Clone {
    fn build_a(&self) -> T { hook::build(self, 0) }
    fn build_d(&self) -> Result<T, Er> { hook::build_f(self, 3) }
}
impl<T: GenV, const N: usize> Obj for S44<T, N> where T: Clone {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S44_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), T), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), T), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<T as FxV>::mk(id)).old(), 1 => self.set_b(<T as FxV>::mk(id)).old(), 2 => self.set_c(<T as FxV>::mk(id)).old(), 3 => self.set_d(<T as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S44_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s44_new() -> Handle { Handle::S(arc(S44::<Val, 3>::new())) }
fn s44_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S44::<Val, 3>::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s44_dflt() -> Handle { Handle::S(arc(S44::<Val, 3>::default())) }
pub static S44_META: Meta = Meta { name: "S44", fields: S44_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s44_new, dflt: Some(s44_dflt), make: Some(s44_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S44))]
pub use m_S44::*;

// shape S45
#[cfg(not(fx_no_S45))]
mod m_S45 {
use super::*;
#[fxstruct(sync, serde, builder)]
#[derive(Clone, Debug)]
pub struct S45 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, serde("first"))]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000090)), rename("bee"), serde("second"))]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000092)), serde("third", default(vd(9000091))))]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)), serde("fourth"))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S45 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for S45 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S45_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_bee(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.bee().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_bee().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.bee_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_bee().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_bee(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_bee().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S45_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "first" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000090), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "second" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000092), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000091), key: "third" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "fourth" },
];
fn s45_new() -> Handle { Handle::S(arc(S45::new())) }
fn s45_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S45::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.bee(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s45_dflt() -> Handle { Handle::S(arc(S45::default())) }
fn s45_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S45>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S45_META: Meta = Meta { name: "S45", fields: S45_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s45_new, dflt: Some(s45_dflt), make: Some(s45_make), post: false, post_fallible: false, deser: Some(s45_de), de_struct_default: false };
}
#[cfg(not(fx_no_S45))]
pub use m_S45::*;

// shape S46
#[cfg(not(fx_no_S46))]
mod m_S46 {
use super::*;
#[fxstruct(sync, rc("me"), builder)]
#[derive(Debug)]
pub struct S46 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000093)))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S46 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_c(&self) -> Result<Val, Er> { hook::build_f(self, 2) }
}
impl Obj for S46 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S46_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => lazy_wg!(self.write_c(), Val), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.me() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.me_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static S46_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000093), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s46_new() -> Handle { Handle::S(S46::new()) }
fn s46_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S46::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(x))
}
pub static S46_META: Meta = Meta { name: "S46", fields: S46_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: s46_new, dflt: None, make: Some(s46_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S46))]
pub use m_S46::*;

// shape S47
#[cfg(not(fx_no_S47))]
mod m_S47 {
use super::*;
#[fxstruct(sync, optional, lock, reader, writer, clone, get, set, clearer, predicate, into)]
#[derive(Clone, PartialEq, Debug)]
pub struct S47 {
    a: Val,
    #[fieldx(copy)]
    b: Cid,
    #[fieldx(into(off))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl Obj for S47 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S47_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => self.write_c().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(In(id)).old(), 1 => self.set_b(In(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S47_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 119, excl: 0, owned: true, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 119, excl: 0, owned: true, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 119, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn s47_new() -> Handle { Handle::S(arc(S47::new())) }
fn s47_dflt() -> Handle { Handle::S(arc(S47::default())) }
pub static S47_META: Meta = Meta { name: "S47", fields: S47_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s47_new, dflt: Some(s47_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S47))]
pub use m_S47::*;

// shape A22
#[cfg(not(fx_no_A22))]
mod m_A22 {
use super::*;
#[fxstruct(r#async, get("get_"), set("put_"), clearer("reset_"), predicate("is_"), reader("rd_"), writer("wr_"), builder("give_"))]
#[derive(Debug)]
pub struct A22 {
    #[fieldx(lazy)]
    a: Val,
    #[fieldx(optional)]
    b: Val,
    #[fieldx(lock, clearer(off), predicate(off))]
    c: Val,
    #[fieldx(lazy, fallible(error(Er)), get(clone))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A22 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Val, Er> { hook::a_build_f(self, 3).await }
}
impl Obj for A22 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A22_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.is_a(), 3 => self.is_d(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.is_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.get_a().await.rg() }), 1 => Box::pin(async move { self.get_b().await.rg() }), 2 => Box::pin(async move { self.get_c().await.rg() }), 3 => Box::pin(async move { self.get_d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.rd_a().await.rg() }), 1 => Box::pin(async move { self.rd_b().await.rg() }), 2 => Box::pin(async move { self.rd_c().await.rg() }), 3 => Box::pin(async move { self.rd_d().await.rg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.wr_a().await, Val) }), 1 => Box::pin(async move { self.wr_b().await.wg() }), 2 => Box::pin(async move { self.wr_c().await.wg() }), 3 => Box::pin(async move { lazy_wg!(self.wr_d().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.put_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.put_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.put_c(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.put_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.reset_a().await.old() }), 1 => Box::pin(async move { self.reset_b().await.old() }), 3 => Box::pin(async move { self.reset_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A22_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 119, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn a22_new() -> Handle { Handle::S(arc(A22::new())) }
fn a22_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A22::builder(), |b, f| match f { 0 => b.give_a(Val::mk(id(0))), 1 => b.give_b(Val::mk(id(1))), 2 => b.give_c(Val::mk(id(2))), 3 => b.give_d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn a22_dflt() -> Handle { Handle::S(arc(A22::default())) }
pub static A22_META: Meta = Meta { name: "A22", fields: A22_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a22_new, dflt: Some(a22_dflt), make: Some(a22_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A22))]
pub use m_A22::*;

// shape A23
#[cfg(not(fx_no_A23))]
mod m_A23 {
use super::*;
#[fxstruct]
#[derive(Debug)]
pub struct A23 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, r#async)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)), r#async)]
    b: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer, r#async)]
    c: Val,
    #[fieldx(r#async, get, reader, writer, set)]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A23 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Result<Val, Er> { hook::a_build_f(self, 1).await }
}
impl Obj for A23 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A23_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 2 => Box::pin(async move { self.has_c().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 1 => Box::pin(async move { self.b_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.write_b().await, Val) }), 2 => Box::pin(async move { self.write_c().await.wg() }), 3 => Box::pin(async move { self.write_d().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A23_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn a23_new() -> Handle { Handle::S(arc(A23::new())) }
fn a23_dflt() -> Handle { Handle::S(arc(A23::default())) }
pub static A23_META: Meta = Meta { name: "A23", fields: A23_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a23_new, dflt: Some(a23_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A23))]
pub use m_A23::*;

// shape A24
#[cfg(not(fx_no_A24))]
mod m_A24 {
use super::*;
#[fxstruct(r#async, fallible(off, error(Er)), lazy, clone, get, set, predicate, clearer)]
#[derive(Debug)]
pub struct A24 {
    a: Val,
    #[fieldx(fallible)]
    b: Val,
    #[fieldx(copy)]
    c: Cid,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A24 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Result<Val, Er> { hook::a_build_f(self, 1).await }
    async fn build_c(&self) -> Cid { hook::a_build(self, 2).await }
}
impl Obj for A24 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A24_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Cid as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 2 => Box::pin(async move { self.clear_c().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A24_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 99, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 99, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: true, ops: 99, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a24_new() -> Handle { Handle::S(arc(A24::new())) }
fn a24_dflt() -> Handle { Handle::S(arc(A24::default())) }
pub static A24_META: Meta = Meta { name: "A24", fields: A24_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a24_new, dflt: Some(a24_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A24))]
pub use m_A24::*;

// shape A25
#[cfg(not(fx_no_A25))]
mod m_A25 {
use super::*;
#[fxstruct(r#async, rc("me"))]
#[derive(Debug)]
pub struct A25 {
    #[fieldx(lazy("mk_a"), get("the_a"), predicate("there_a"), reader("peek_a"), get_mut("edit_a"), writer("hold_a"), set("swap_a"), clearer("drop_a"))]
    a: Val,
    #[fieldx(lazy, fallible(error(Er)), get("the_d", clone), predicate("there_d"), reader("peek_d"), get_mut("edit_d"), writer("hold_d"), set("swap_d"), clearer("drop_d"))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A25 {
    async fn mk_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Val, Er> { hook::a_build_f(self, 1).await }
}
impl Obj for A25 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A25_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.there_a(), 1 => self.there_d(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.the_a().await.rg() }), 1 => Box::pin(async move { self.the_d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.peek_a().await.rg() }), 1 => Box::pin(async move { self.peek_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.edit_a().await.wg() }), 1 => Box::pin(async move { self.edit_d().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.hold_a().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.hold_d().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.swap_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.swap_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.drop_a().await.old() }), 1 => Box::pin(async move { self.drop_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.me() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.me_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static A25_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn a25_new() -> Handle { Handle::S(A25::new()) }
pub static A25_META: Meta = Meta { name: "A25", fields: A25_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: true, new: a25_new, dflt: None, make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A25))]
pub use m_A25::*;

// shape P25
#[cfg(not(fx_no_P25))]
mod m_P25 {
use super::*;
#[fxstruct(get("get_"), set("put_"), clearer("reset_"), predicate("is_"), get_mut("mut_"), builder("give_"))]
#[derive(Clone, Debug)]
pub struct P25 {
    #[fieldx(lazy)]
    a: Val,
    #[fieldx(optional)]
    b: Val,
    #[fieldx(clearer(off), predicate(off))]
    c: Val,
    #[fieldx(lazy, fallible(error(Er)), get(clone))]
    d: Val,
    #[fieldx(optional, inner_mut)]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P25 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for P25 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P25_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.is_a(), 1 => self.is_b(), 3 => self.is_d(), 4 => self.is_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.get_a().rg(), 1 => self.get_b().rg(), 2 => self.get_c().rg(), 3 => self.get_d().rg(), 4 => self.get_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 4 => self.mut_e_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 4 => self.put_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 4 => self.reset_e().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.mut_a_mut().wg(), 1 => self.mut_b_mut().wg(), 2 => self.mut_c_mut().wg(), 3 => self.mut_d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.put_a(<Val as FxV>::mk(id)).old(), 1 => self.put_b(<Val as FxV>::mk(id)).old(), 2 => self.put_c(<Val as FxV>::mk(id)).old(), 3 => self.put_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.reset_a().old(), 1 => self.reset_b().old(), 3 => self.reset_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P25_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn p25_new() -> Handle { Handle::B(boxed(P25::new())) }
fn p25_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P25::builder(), |b, f| match f { 0 => b.give_a(Val::mk(id(0))), 1 => b.give_b(Val::mk(id(1))), 2 => b.give_c(Val::mk(id(2))), 3 => b.give_d(Val::mk(id(3))), 4 => b.give_e(Val::mk(id(4))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p25_dflt() -> Handle { Handle::B(boxed(P25::default())) }
pub static P25_META: Meta = Meta { name: "P25", fields: P25_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p25_new, dflt: Some(p25_dflt), make: Some(p25_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P25))]
pub use m_P25::*;

// shape P26
#[cfg(not(fx_no_P26))]
mod m_P26 {
use super::*;
#[fxstruct(clone, get, set, predicate, clearer, fallible(off, error(Er)), into, builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct P26 {
    #[fieldx(lazy)]
    a: Val,
    #[fieldx(lazy, fallible)]
    b: Val,
    #[fieldx(copy)]
    c: Cid,
    #[fieldx(optional, into(off))]
    d: Val,
    #[fieldx(inner_mut)]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P26 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
}
impl Obj for P26 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P26_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 4 => self.clear_e().old(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P26_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 96, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 99, excl: 96, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 99, excl: 96, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 99, excl: 96, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 99, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn p26_new() -> Handle { Handle::B(boxed(P26::new())) }
fn p26_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P26::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), 2 => b.c(In(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(In(id(4))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p26_dflt() -> Handle { Handle::B(boxed(P26::default())) }
pub static P26_META: Meta = Meta { name: "P26", fields: P26_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p26_new, dflt: Some(p26_dflt), make: Some(p26_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P26))]
pub use m_P26::*;

// shape P27
#[cfg(not(fx_no_P27))]
mod m_P27 {
use super::*;
#[fxstruct(builder)]
#[derive(Clone, Debug)]
pub struct P27<T: GenV, const N: usize> where T: Clone {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: T,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: T,
    #[fieldx(get, get_mut, set)]
    c: T,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    d: T,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(std::marker::PhantomData))]
    mark: std::marker::PhantomData<[u8; N]>,
}
impl<T: GenV, const N: usize> P27<T, N> where T: Clone {
    fn build_a(&self) -> T { hook::build(self, 0) }
}
impl<T: GenV, const N: usize> Obj for P27<T, N> where T: Clone {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P27_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<T as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 3 => self.clear_d().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<T as FxV>::mk(id)).old(), 1 => self.set_b(<T as FxV>::mk(id)).old(), 2 => self.set_c(<T as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P27_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p27_new() -> Handle { Handle::B(boxed(P27::<Val, 3>::new())) }
fn p27_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P27::<Val, 3>::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p27_dflt() -> Handle { Handle::B(boxed(P27::<Val, 3>::default())) }
pub static P27_META: Meta = Meta { name: "P27", fields: P27_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p27_new, dflt: Some(p27_dflt), make: Some(p27_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P27))]
pub use m_P27::*;

// shape P28
#[cfg(not(fx_no_P28))]
mod m_P28 {
use super::*;
#[fxstruct(serde, builder)]
#[derive(Clone, Debug)]
pub struct P28 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, serde("first"))]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000094)), rename("bee"), serde("second"))]
    b: Val,
    #[fieldx(get, get_mut, set, default(vd(9000096)), serde("third", default(vd(9000095))))]
    c: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut, serde("fourth"))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P28 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P28 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P28_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_bee(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.bee().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 3 => self.clear_d().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.bee_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_bee(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_bee().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P28_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "first" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000094), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "second" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000096), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000095), key: "third" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "fourth" },
];
fn p28_new() -> Handle { Handle::B(boxed(P28::new())) }
fn p28_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P28::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.bee(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p28_dflt() -> Handle { Handle::B(boxed(P28::default())) }
fn p28_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P28>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P28_META: Meta = Meta { name: "P28", fields: P28_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p28_new, dflt: Some(p28_dflt), make: Some(p28_make), post: false, post_fallible: false, deser: Some(p28_de), de_struct_default: false };
}
#[cfg(not(fx_no_P28))]
pub use m_P28::*;

// shape P29
#[cfg(not(fx_no_P29))]
mod m_P29 {
use super::*;
#[fxstruct(rc("me"), get, get_mut, set)]
#[derive(Debug)]
pub struct P29 {
    #[fieldx(inner_mut)]
    a: Val,
    #[fieldx(inner_mut, optional, clearer, predicate)]
    b: Val,
    #[fieldx(inner_mut, clearer)]
    c: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl Obj for P29 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P29_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.me() { Some(x) => Some(Handle::P(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.me_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::P(x))) }
}
static P29_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 106, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p29_new() -> Handle { Handle::P(P29::new()) }
pub static P29_META: Meta = Meta { name: "P29", fields: P29_FIELDS, plain: true, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: p29_new, dflt: None, make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P29))]
pub use m_P29::*;

// shape S48
#[cfg(not(fx_no_S48))]
mod m_S48 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Debug)]
pub struct S48 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    d: Val,
    #[fieldx(lazy, predicate, get, set, clearer, fallible(error(Er)))]
    e: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer, lock)]
    f: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S48 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_b(&self) -> Result<Val, Er> { hook::build_f(self, 1) }
    fn build_e(&self) -> Result<Val, Er> { hook::build_f(self, 4) }
}
impl Obj for S48 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S48_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.a.is_set(), 1 => self.b.is_set(), 2 => std::borrow::Borrow::<parking_lot::RwLock<_>>::borrow(&self.c).read().is_some(), 4 => self.has_e(), 5 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a.read(self).rg(), 1 => self.b.try_read(self).rg(), 2 => self.c.read().rg(), 3 => self.d.read().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a.read(self).rg(), 1 => self.b.read(self).rg(), 2 => AsRef::<parking_lot::RwLock<_>>::as_ref(&self.c).read().rg(), 3 => AsRef::<parking_lot::RwLock<_>>::as_ref(&self.d).read().rg(), 5 => self.read_f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a.read_mut(self).wg(), 1 => self.b.read_mut(self).wg(), 2 => self.c.write().wg(), 3 => self.d.write().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.a.write(), Val), 1 => lazy_wg!(self.b.write(), Val), 2 => std::borrow::Borrow::<parking_lot::RwLock<_>>::borrow(&self.c).write().wg(), 3 => std::borrow::Borrow::<parking_lot::RwLock<_>>::borrow(&self.d).write().wg(), 5 => std::borrow::Borrow::<parking_lot::RwLock<_>>::borrow(&self.f).write().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => { let mut g = self.a.write(); g.store(<Val as FxV>::mk(id)).old() }, 1 => { let mut g = self.b.write(); g.store(<Val as FxV>::mk(id)).old() }, 2 => AsRef::<parking_lot::RwLock<_>>::as_ref(&self.c).write().replace(<Val as FxV>::mk(id)).old(), 3 => std::mem::replace(&mut *AsRef::<parking_lot::RwLock<_>>::as_ref(&self.d).write(), <Val as FxV>::mk(id)).old(), 4 => { let mut g = self.e.write(); g.store(<Val as FxV>::mk(id)).old() }, 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.a.clear().old(), 1 => { let g = self.b.write(); g.clear().old() }, 2 => self.c.write().take().old(), 4 => self.clear_e().old(), 5 => self.f.write().take().old(), _ => unreachable!() } }
    fn touch(&self, f: u8) { match f { 0 => self.a.lazy_init(self), 1 => self.b.lazy_init(self), 4 => self.e.lazy_init(self), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S48_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 255, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 255, excl: 0, owned: false, fallible: true, unwraps: 12, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 227, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
];
fn s48_new() -> Handle { Handle::S(arc(S48::new())) }
fn s48_dflt() -> Handle { Handle::S(arc(S48::default())) }
pub static S48_META: Meta = Meta { name: "S48", fields: S48_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s48_new, dflt: Some(s48_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S48))]
pub use m_S48::*;

// shape A26
#[cfg(not(fx_no_A26))]
mod m_A26 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A26 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    c: Val,
    #[fieldx(lock, get, reader, writer, set)]
    d: Val,
    #[fieldx(lazy, predicate, get, set, clearer, fallible(error(Er)))]
    e: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A26 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_b(&self) -> Result<Val, Er> { hook::a_build_f(self, 1).await }
    async fn build_e(&self) -> Result<Val, Er> { hook::a_build_f(self, 4).await }
}
impl Obj for A26 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A26_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.a.is_set(), 1 => self.b.is_set(), 4 => self.has_e(), _ => unreachable!() } }
    fn a_touch(&self, f: u8) -> Fut<'_, ()> { match f { 0 => Box::pin(async move { self.a.lazy_init(self).await }), 1 => Box::pin(async move { self.b.lazy_init(self).await }), 4 => Box::pin(async move { self.e.lazy_init(self).await }), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 2 => Box::pin(async move { std::borrow::Borrow::<tokio::sync::RwLock<_>>::borrow(&self.c).read().await.is_some() }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a.read(self).await.rg() }), 1 => Box::pin(async move { self.b.try_read(self).await.rg() }), 2 => Box::pin(async move { self.c.read().await.rg() }), 3 => Box::pin(async move { self.d.read().await.rg() }), 4 => Box::pin(async move { self.e().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a.read(self).await.rg() }), 1 => Box::pin(async move { self.b.read(self).await.rg() }), 2 => Box::pin(async move { AsRef::<tokio::sync::RwLock<_>>::as_ref(&self.c).read().await.rg() }), 3 => Box::pin(async move { AsRef::<tokio::sync::RwLock<_>>::as_ref(&self.d).read().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a.read_mut(self).await.wg() }), 1 => Box::pin(async move { self.b.read_mut(self).await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.a.write().await, Val) }), 1 => Box::pin(async move { lazy_wg!(self.b.write().await, Val) }), 2 => Box::pin(async move { std::borrow::Borrow::<tokio::sync::RwLock<_>>::borrow(&self.c).write().await.wg() }), 3 => Box::pin(async move { std::borrow::Borrow::<tokio::sync::RwLock<_>>::borrow(&self.d).write().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { { let mut g = self.a.write().await; g.store(<Val as FxV>::mk(id)).old() } }), 1 => Box::pin(async move { { let mut g = self.b.write().await; g.store(<Val as FxV>::mk(id)).old() } }), 2 => Box::pin(async move { AsRef::<tokio::sync::RwLock<_>>::as_ref(&self.c).write().await.replace(<Val as FxV>::mk(id)).old() }), 3 => Box::pin(async move { std::mem::replace(&mut *AsRef::<tokio::sync::RwLock<_>>::as_ref(&self.d).write().await, <Val as FxV>::mk(id)).old() }), 4 => Box::pin(async move { { let mut g = self.e.write().await; g.store(<Val as FxV>::mk(id)).old() } }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.a.clear().await.old() }), 1 => Box::pin(async move { { let g = self.b.write().await; g.clear().old() } }), 2 => Box::pin(async move { self.c.write().await.take().old() }), 4 => Box::pin(async move { self.clear_e().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A26_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 255, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: true, ops: 255, excl: 0, owned: false, fallible: true, unwraps: 12, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: true, ops: 227, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn a26_new() -> Handle { Handle::S(arc(A26::new())) }
fn a26_dflt() -> Handle { Handle::S(arc(A26::default())) }
pub static A26_META: Meta = Meta { name: "A26", fields: A26_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a26_new, dflt: Some(a26_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A26))]
pub use m_A26::*;

// shape S49
#[cfg(not(fx_no_S49))]
mod m_S49 {
use super::*;
#[fxstruct(sync, serde(attributes(serde(deny_unknown_fields)), default("Self::sdef")), builder)]
#[derive(Clone, Debug)]
pub struct S49 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)), builder(required))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S49 { fn sdef() -> Self { let x = S49::builder().a(vd(9000100)).b(vd(9000101)).c(vd(9000102)).d(vd(9000106)).build().unwrap(); x } }

impl S49 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for S49 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S49_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S49_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000100), key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000101), key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: Some(9000102), key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: Some(9000106), key: "d" },
];
fn s49_new() -> Handle { Handle::S(arc(S49::new())) }
fn s49_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S49::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s49_dflt() -> Handle { Handle::S(arc(S49::default())) }
fn s49_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S49>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S49_META: Meta = Meta { name: "S49", fields: S49_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: true, blocking: false, new: s49_new, dflt: Some(s49_dflt), make: Some(s49_make), post: false, post_fallible: false, deser: Some(s49_de), de_struct_default: false };
}
#[cfg(not(fx_no_S49))]
pub use m_S49::*;

// shape S50
#[cfg(not(fx_no_S50))]
mod m_S50 {
use super::*;
#[fxstruct(sync, builder(post_build))]
#[derive(Clone, Debug)]
pub struct S50 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default)]
    c: Val,
    #[fieldx(lock, get(clone), reader, get_mut, writer, set, default)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S50 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn post_build(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for S50 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S50_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => self.write_d().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S50_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s50_new() -> Handle { Handle::S(arc(S50::new())) }
fn s50_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S50::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s50_dflt() -> Handle { Handle::S(arc(S50::default())) }
pub static S50_META: Meta = Meta { name: "S50", fields: S50_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s50_new, dflt: Some(s50_dflt), make: Some(s50_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S50))]
pub use m_S50::*;

// shape S51
#[cfg(not(fx_no_S51))]
mod m_S51 {
use super::*;
#[fxstruct(sync, public(crate), attributes_impl(allow(dead_code)), builder(attributes(derive(Clone)), attributes_impl(allow(unused)), public), serde(public, attributes(derive(Clone))))]
#[derive(Clone, Debug)]
pub struct S51 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, attributes_fn(inline), private)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, public)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, public(crate))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S51 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S51 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S51_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S51_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
];
fn s51_new() -> Handle { Handle::S(arc(S51::new())) }
fn s51_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S51::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s51_dflt() -> Handle { Handle::S(arc(S51::default())) }
fn s51_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S51>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S51_META: Meta = Meta { name: "S51", fields: S51_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s51_new, dflt: Some(s51_dflt), make: Some(s51_make), post: false, post_fallible: false, deser: Some(s51_de), de_struct_default: false };
}
#[cfg(not(fx_no_S51))]
pub use m_S51::*;

// shape A27
#[cfg(not(fx_no_A27))]
mod m_A27 {
use super::*;
#[fxstruct(r#async)]
#[derive(Debug)]
pub struct A27 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, mode(sync))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, mode(sync))]
    c: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    d: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)), mode(sync))]
    e: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl A27 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    fn build_b(&self) -> Val { hook::build(self, 1) }
    fn build_e(&self) -> Result<Val, Er> { hook::build_f(self, 4) }
}
impl Obj for A27 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A27_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 1 => self.b().rg(), 2 => self.c().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 1 => self.read_b().rg(), 2 => self.read_c().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 1 => lazy_wg!(self.write_b(), Val), 2 => self.write_c().wg(), 4 => lazy_wg!(self.write_e(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 1 => self.clear_b().old(), 2 => self.clear_c().old(), 4 => self.clear_e().old(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 3 => Box::pin(async move { self.has_d().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 3 => Box::pin(async move { self.write_d().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 3 => Box::pin(async move { self.clear_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A27_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn a27_new() -> Handle { Handle::S(arc(A27::new())) }
fn a27_dflt() -> Handle { Handle::S(arc(A27::default())) }
pub static A27_META: Meta = Meta { name: "A27", fields: A27_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: a27_new, dflt: Some(a27_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A27))]
pub use m_A27::*;

// shape P30
#[cfg(not(fx_no_P30))]
mod m_P30 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, PartialEq, Debug)]
pub struct P30 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, mode(plain))]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, mode(plain))]
    b: Val,
    #[fieldx(get, get_mut, set, mode(plain))]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)), mode(plain))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P30 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
}
impl Obj for P30 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P30_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P30_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p30_new() -> Handle { Handle::B(boxed(P30::new())) }
fn p30_dflt() -> Handle { Handle::B(boxed(P30::default())) }
pub static P30_META: Meta = Meta { name: "P30", fields: P30_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p30_new, dflt: Some(p30_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P30))]
pub use m_P30::*;

// shape P31
#[cfg(not(fx_no_P31))]
mod m_P31 {
use super::*;
#[fxstruct(mode(plain), builder(post_build), default)]
#[derive(Clone, PartialEq, Debug)]
pub struct P31 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set, default)]
    c: Val,
    #[fieldx(get, get_mut, set, inner_mut, default)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P31 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn post_build(self) -> Self { let _ = hook::post(&self); self }
}
impl Obj for P31 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P31_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P31_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p31_new() -> Handle { Handle::B(boxed(P31::new())) }
fn p31_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P31::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p31_dflt() -> Handle { Handle::B(boxed(P31::default())) }
pub static P31_META: Meta = Meta { name: "P31", fields: P31_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p31_new, dflt: Some(p31_dflt), make: Some(p31_make), post: true, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P31))]
pub use m_P31::*;

// shape P32
#[cfg(not(fx_no_P32))]
mod m_P32 {
use super::*;
#[fxstruct(serde(attributes(serde(deny_unknown_fields)), default("Self::sdef")), builder)]
#[derive(Clone, Debug)]
pub struct P32 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set)]
    c: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P32 { fn sdef() -> Self { P32::builder().a(vd(9000103)).b(vd(9000104)).c(vd(9000105)).build().unwrap() } }

impl P32 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P32 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P32_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 3 => self.clear_d().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P32_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000103), key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000104), key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: Some(9000105), key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
];
fn p32_new() -> Handle { Handle::B(boxed(P32::new())) }
fn p32_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P32::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p32_dflt() -> Handle { Handle::B(boxed(P32::default())) }
fn p32_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P32>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P32_META: Meta = Meta { name: "P32", fields: P32_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: true, blocking: false, new: p32_new, dflt: Some(p32_dflt), make: Some(p32_make), post: false, post_fallible: false, deser: Some(p32_de), de_struct_default: false };
}
#[cfg(not(fx_no_P32))]
pub use m_P32::*;

// shape S52
#[cfg(not(fx_no_S52))]
mod m_S52 {
use super::*;
#[fxstruct(sync, builder, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct S52 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Big,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Big,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Big,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Big,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer, default(bd(9000110)))]
    e: Big,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S52 {
    fn build_a(&self) -> Big { hook::build(self, 0) }
    fn build_d(&self) -> Result<Big, Er> { hook::build_f(self, 3) }
}
impl Obj for S52 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S52_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Big), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Big), 4 => self.write_e().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Big as FxV>::mk(id)).old(), 1 => self.set_b(<Big as FxV>::mk(id)).old(), 2 => self.set_c(<Big as FxV>::mk(id)).old(), 3 => self.set_d(<Big as FxV>::mk(id)).old(), 4 => self.set_e(<Big as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S52_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000110), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
];
fn s52_new() -> Handle { Handle::S(arc(S52::new())) }
fn s52_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S52::builder(), |b, f| match f { 0 => b.a(Big::mk(id(0))), 1 => b.b(Big::mk(id(1))), 2 => b.c(Big::mk(id(2))), 3 => b.d(Big::mk(id(3))), 4 => b.e(Big::mk(id(4))), _ => b }, |x| Handle::S(arc(x)))
}
fn s52_dflt() -> Handle { Handle::S(arc(S52::default())) }
fn s52_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S52>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S52_META: Meta = Meta { name: "S52", fields: S52_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s52_new, dflt: Some(s52_dflt), make: Some(s52_make), post: false, post_fallible: false, deser: Some(s52_de), de_struct_default: false };
}
#[cfg(not(fx_no_S52))]
pub use m_S52::*;

// shape S53
#[cfg(not(fx_no_S53))]
mod m_S53 {
use super::*;
#[fxstruct(sync, rc, builder(into), lazy, get, set(into), predicate, clearer)]
#[derive(Debug)]
pub struct S53 {
    #[fieldx(writer)]
    a: Big,
    #[fieldx(writer, fallible(error(Er)))]
    b: Big,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S53 {
    fn build_a(&self) -> Big { hook::build(self, 0) }
    fn build_b(&self) -> Result<Big, Er> { hook::build_f(self, 1) }
}
impl Obj for S53 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S53_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Big), 1 => lazy_wg!(self.write_b(), Big), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(In(id)).old(), 1 => self.set_b(In(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn myself(&self) -> Option<Handle> { match self.myself() { Some(x) => Some(Handle::S(x)), None => None } }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.myself_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::S(x))) }
}
static S53_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 115, excl: 0, owned: false, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Lazy, a: false, ops: 115, excl: 0, owned: false, fallible: true, unwraps: 0, into: true, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
];
fn s53_new() -> Handle { Handle::S(S53::new()) }
fn s53_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S53::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), _ => b }, |x| Handle::S(x))
}
pub static S53_META: Meta = Meta { name: "S53", fields: S53_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: true, deny: false, blocking: false, new: s53_new, dflt: None, make: Some(s53_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S53))]
pub use m_S53::*;

// shape S54
#[cfg(not(fx_no_S54))]
mod m_S54 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, Debug)]
pub struct S54<T: GenV> {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: T,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: T,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: T,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: T,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl<T: GenV> S54<T> {
    fn build_a(&self) -> T { hook::build(self, 0) }
    fn build_d(&self) -> Result<T, Er> { hook::build_f(self, 3) }
}
impl<T: GenV> Obj for S54<T> {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S54_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), T), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), T), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<T as FxV>::mk(id)).old(), 1 => self.set_b(<T as FxV>::mk(id)).old(), 2 => self.set_c(<T as FxV>::mk(id)).old(), 3 => self.set_d(<T as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S54_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s54_new() -> Handle { Handle::S(arc(S54::<Big>::new())) }
fn s54_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S54::<Big>::builder(), |b, f| match f { 0 => b.a(Big::mk(id(0))), 1 => b.b(Big::mk(id(1))), 2 => b.c(Big::mk(id(2))), 3 => b.d(Big::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s54_dflt() -> Handle { Handle::S(arc(S54::<Big>::default())) }
pub static S54_META: Meta = Meta { name: "S54", fields: S54_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s54_new, dflt: Some(s54_dflt), make: Some(s54_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S54))]
pub use m_S54::*;

// shape A28
#[cfg(not(fx_no_A28))]
mod m_A28 {
use super::*;
#[fxstruct(r#async, builder)]
#[derive(Debug)]
pub struct A28 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Big,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    b: Big,
    #[fieldx(lock, get, reader, writer, set)]
    c: Big,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Big,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A28 {
    async fn build_a(&self) -> Big { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Big, Er> { hook::a_build_f(self, 3).await }
}
impl Obj for A28 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A28_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 3 => self.has_d(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 3 => Box::pin(async move { self.d_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Big) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), 3 => Box::pin(async move { lazy_wg!(self.write_d().await, Big) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Big as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Big as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Big as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Big as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 3 => Box::pin(async move { self.clear_d().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A28_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn a28_new() -> Handle { Handle::S(arc(A28::new())) }
fn a28_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A28::builder(), |b, f| match f { 0 => b.a(Big::mk(id(0))), 1 => b.b(Big::mk(id(1))), 2 => b.c(Big::mk(id(2))), 3 => b.d(Big::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn a28_dflt() -> Handle { Handle::S(arc(A28::default())) }
pub static A28_META: Meta = Meta { name: "A28", fields: A28_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a28_new, dflt: Some(a28_dflt), make: Some(a28_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A28))]
pub use m_A28::*;

// shape P33
#[cfg(not(fx_no_P33))]
mod m_P33 {
use super::*;
#[fxstruct(builder, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct P33 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Big,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Big,
    #[fieldx(get, get_mut, set)]
    c: Big,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)))]
    d: Big,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    e: Big,
    #[fieldx(get(clone), get_mut, set, inner_mut)]
    f: Big,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P33 {
    fn build_a(&self) -> Big { hook::build(self, 0) }
    fn build_d(&self) -> Result<Big, Er> { hook::build_f(self, 3) }
}
impl Obj for P33 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P33_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 4 => self.set_e(<Big as FxV>::mk(id)).old(), 5 => self.set_f(<Big as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 4 => self.clear_e().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Big as FxV>::mk(id)).old(), 1 => self.set_b(<Big as FxV>::mk(id)).old(), 2 => self.set_c(<Big as FxV>::mk(id)).old(), 3 => self.set_d(<Big as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P33_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Eager, a: false, ops: 42, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "f" },
];
fn p33_new() -> Handle { Handle::B(boxed(P33::new())) }
fn p33_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P33::builder(), |b, f| match f { 0 => b.a(Big::mk(id(0))), 1 => b.b(Big::mk(id(1))), 2 => b.c(Big::mk(id(2))), 3 => b.d(Big::mk(id(3))), 4 => b.e(Big::mk(id(4))), 5 => b.f(Big::mk(id(5))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p33_dflt() -> Handle { Handle::B(boxed(P33::default())) }
fn p33_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P33>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P33_META: Meta = Meta { name: "P33", fields: P33_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p33_new, dflt: Some(p33_dflt), make: Some(p33_make), post: false, post_fallible: false, deser: Some(p33_de), de_struct_default: false };
}
#[cfg(not(fx_no_P33))]
pub use m_P33::*;

// shape S55
#[cfg(not(fx_no_S55))]
mod m_S55 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct S55 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default("V<9000120>"))]
    a: String,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default("V<9000121>"))]
    b: String,
    #[fieldx(lock, get, reader, get_mut, writer, set, default("V<9000122>"))]
    c: String,
    #[fieldx(lock, get(clone), reader, get_mut, writer, set(into))]
    d: String,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    e: String,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S55 {
    fn build_a(&self) -> String { hook::build(self, 0) }
    fn build_e(&self) -> Result<String, Er> { hook::build_f(self, 4) }
}
impl Obj for S55 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S55_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), String), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => self.write_d().wg(), 4 => lazy_wg!(self.write_e(), String), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<String as FxV>::mk(id)).old(), 1 => self.set_b(<String as FxV>::mk(id)).old(), 2 => self.set_c(<String as FxV>::mk(id)).old(), 3 => self.set_d(In(id)).old(), 4 => self.set_e(<String as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 4 => self.clear_e().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S55_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000120), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000121), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000122), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: true, fallible: false, unwraps: 0, into: true, lock: true, cell: false, tracked: false, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn s55_new() -> Handle { Handle::S(arc(S55::new())) }
fn s55_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S55::builder(), |b, f| match f { 0 => b.a(String::mk(id(0))), 1 => b.b(String::mk(id(1))), 2 => b.c(String::mk(id(2))), 3 => b.d(String::mk(id(3))), 4 => b.e(String::mk(id(4))), _ => b }, |x| Handle::S(arc(x)))
}
fn s55_dflt() -> Handle { Handle::S(arc(S55::default())) }
pub static S55_META: Meta = Meta { name: "S55", fields: S55_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s55_new, dflt: Some(s55_dflt), make: Some(s55_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S55))]
pub use m_S55::*;

// shape A29
#[cfg(not(fx_no_A29))]
mod m_A29 {
use super::*;
#[fxstruct(r#async, builder(into))]
#[derive(Debug)]
pub struct A29 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, default("V<9000123>"))]
    a: String,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer, default("V<9000124>"))]
    b: String,
    #[fieldx(lock, get, reader, writer, set, default("V<9000125>"))]
    c: String,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A29 {
    async fn build_a(&self) -> String { hook::a_build(self, 0).await }
}
impl Obj for A29 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A29_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, String) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<String as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<String as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<String as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A29_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000123), b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000124), b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: Some(9000125), b_set: true, b_into: true, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
];
fn a29_new() -> Handle { Handle::S(arc(A29::new())) }
fn a29_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A29::builder(), |b, f| match f { 0 => b.a(In(id(0))), 1 => b.b(In(id(1))), 2 => b.c(In(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn a29_dflt() -> Handle { Handle::S(arc(A29::default())) }
pub static A29_META: Meta = Meta { name: "A29", fields: A29_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a29_new, dflt: Some(a29_dflt), make: Some(a29_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A29))]
pub use m_A29::*;

// shape P34
#[cfg(not(fx_no_P34))]
mod m_P34 {
use super::*;
#[fxstruct(builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct P34 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, default("V<9000126>"))]
    a: String,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default("V<9000127>"))]
    b: String,
    #[fieldx(get, get_mut, set, default("V<9000128>"))]
    c: String,
    #[fieldx(get(clone), get_mut, set, default("V<9000129>"), inner_mut)]
    d: String,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, inner_mut)]
    e: String,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P34 {
    fn build_a(&self) -> String { hook::build(self, 0) }
}
impl Obj for P34 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P34_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 3 => self.set_d(<String as FxV>::mk(id)).old(), 4 => self.set_e(<String as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 4 => self.clear_e().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<String as FxV>::mk(id)).old(), 1 => self.set_b(<String as FxV>::mk(id)).old(), 2 => self.set_c(<String as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P34_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: Some(9000126), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: Some(9000127), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: Some(9000128), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: false, default: Some(9000129), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: false, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn p34_new() -> Handle { Handle::B(boxed(P34::new())) }
fn p34_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P34::builder(), |b, f| match f { 0 => b.a(String::mk(id(0))), 1 => b.b(String::mk(id(1))), 2 => b.c(String::mk(id(2))), 3 => b.d(String::mk(id(3))), 4 => b.e(String::mk(id(4))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p34_dflt() -> Handle { Handle::B(boxed(P34::default())) }
pub static P34_META: Meta = Meta { name: "P34", fields: P34_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p34_new, dflt: Some(p34_dflt), make: Some(p34_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P34))]
pub use m_P34::*;

// shape S56
#[cfg(not(fx_no_S56))]
mod m_S56 {
use super::*;
#[fxstruct(sync, builder)]
#[derive(Clone, PartialEq, Debug)]
pub struct S56 {
    #[fieldx(optional, predicate, get, get_mut, set, default(vd(9000130)), lock(off))]
    a: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, lock(off), clearer)]
    b: Val,
    #[fieldx(optional, predicate, get(copy), get_mut, set, lock(off))]
    c: Cid,
    #[fieldx(get(clone), get_mut, set, default(vd(9000131)))]
    d: Val,
    #[fieldx(get(copy), get_mut, set)]
    e: Cid,
    #[fieldx(get, get_mut, set, lock(off), builder(into))]
    f: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl Obj for S56 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S56_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Cid as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S56_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Opt, a: false, ops: 43, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000130), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 43, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 43, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000131), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 42, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "f" },
];
fn s56_new() -> Handle { Handle::S(arc(S56::new())) }
fn s56_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S56::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Cid::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Cid::mk(id(4))), 5 => b.f(In(id(5))), _ => b }, |x| Handle::S(arc(x)))
}
fn s56_dflt() -> Handle { Handle::S(arc(S56::default())) }
pub static S56_META: Meta = Meta { name: "S56", fields: S56_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s56_new, dflt: Some(s56_dflt), make: Some(s56_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S56))]
pub use m_S56::*;

// shape A30
#[cfg(not(fx_no_A30))]
mod m_A30 {
use super::*;
#[fxstruct(r#async, builder)]
#[derive(Debug)]
pub struct A30 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, default(vd(9000132)), lock(off))]
    b: Val,
    #[fieldx(optional, predicate, get(copy), get_mut, set, lock(off))]
    c: Cid,
    #[fieldx(get(clone), get_mut, set)]
    d: Val,
    #[fieldx(get(copy), get_mut, set, default(cd(9000133)))]
    e: Cid,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A30 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
}
impl Obj for A30 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A30_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Cid as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Cid as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A30_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 43, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000132), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 43, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 42, excl: 40, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: Some(9000133), b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn a30_new() -> Handle { Handle::S(arc(A30::new())) }
fn a30_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A30::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Cid::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Cid::mk(id(4))), _ => b }, |x| Handle::S(arc(x)))
}
fn a30_dflt() -> Handle { Handle::S(arc(A30::default())) }
pub static A30_META: Meta = Meta { name: "A30", fields: A30_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a30_new, dflt: Some(a30_dflt), make: Some(a30_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A30))]
pub use m_A30::*;

// shape S57
#[cfg(not(fx_no_S57))]
mod m_S57 {
use super::*;
#[fxstruct(sync, serde(default), builder)]
#[derive(Clone, Debug)]
pub struct S57 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000134)))]
    d: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(vd(9000135)))]
    e: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    f: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S57 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_f(&self) -> Result<Val, Er> { hook::build_f(self, 5) }
}
impl Obj for S57 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S57_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), 5 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), 5 => self.read_f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => self.write_d().wg(), 4 => self.write_e().wg(), 5 => lazy_wg!(self.write_f(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S57_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000134), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000135), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
];
fn s57_new() -> Handle { Handle::S(arc(S57::new())) }
fn s57_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S57::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), _ => b }, |x| Handle::S(arc(x)))
}
fn s57_dflt() -> Handle { Handle::S(arc(S57::default())) }
fn s57_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S57>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S57_META: Meta = Meta { name: "S57", fields: S57_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s57_new, dflt: Some(s57_dflt), make: Some(s57_make), post: false, post_fallible: false, deser: Some(s57_de), de_struct_default: true };
}
#[cfg(not(fx_no_S57))]
pub use m_S57::*;

// shape S58
#[cfg(not(fx_no_S58))]
mod m_S58 {
use super::*;
#[fxstruct(sync, serde, builder)]
#[derive(Clone, Debug)]
pub struct S58 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, serde(default))]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, serde(default))]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, serde(default))]
    d: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S58 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S58 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S58_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 4 => self.write_e().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S58_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: Some(DEFAULT_ID), key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "e" },
];
fn s58_new() -> Handle { Handle::S(arc(S58::new())) }
fn s58_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S58::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), _ => b }, |x| Handle::S(arc(x)))
}
fn s58_dflt() -> Handle { Handle::S(arc(S58::default())) }
fn s58_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S58>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S58_META: Meta = Meta { name: "S58", fields: S58_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s58_new, dflt: Some(s58_dflt), make: Some(s58_make), post: false, post_fallible: false, deser: Some(s58_de), de_struct_default: false };
}
#[cfg(not(fx_no_S58))]
pub use m_S58::*;

// shape P35
#[cfg(not(fx_no_P35))]
mod m_P35 {
use super::*;
#[fxstruct(serde(default), builder)]
#[derive(Clone, Debug)]
pub struct P35 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set)]
    c: Val,
    #[fieldx(get, get_mut, set, default(vd(9000136)))]
    d: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(vd(9000137)), inner_mut)]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P35 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P35 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P35_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 4 => self.has_e(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 4 => self.clear_e().old(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P35_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000136), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: Some(9000137), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
];
fn p35_new() -> Handle { Handle::B(boxed(P35::new())) }
fn p35_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P35::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p35_dflt() -> Handle { Handle::B(boxed(P35::default())) }
fn p35_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P35>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P35_META: Meta = Meta { name: "P35", fields: P35_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p35_new, dflt: Some(p35_dflt), make: Some(p35_make), post: false, post_fallible: false, deser: Some(p35_de), de_struct_default: true };
}
#[cfg(not(fx_no_P35))]
pub use m_P35::*;

// shape P36
#[cfg(not(fx_no_P36))]
mod m_P36 {
use super::*;
#[fxstruct(serde)]
#[derive(Clone, Debug)]
pub struct P36 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, serde(default))]
    b: Val,
    #[fieldx(get, get_mut, set, serde(default))]
    c: Val,
    #[fieldx(get, get_mut, set)]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P36 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P36 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P36_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P36_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(DEFAULT_ID), key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
];
fn p36_new() -> Handle { Handle::B(boxed(P36::new())) }
fn p36_dflt() -> Handle { Handle::B(boxed(P36::default())) }
fn p36_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P36>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P36_META: Meta = Meta { name: "P36", fields: P36_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p36_new, dflt: Some(p36_dflt), make: None, post: false, post_fallible: false, deser: Some(p36_de), de_struct_default: false };
}
#[cfg(not(fx_no_P36))]
pub use m_P36::*;

// shape S59
#[cfg(not(fx_no_S59))]
mod m_S59 {
use super::*;
#[fxstruct(sync)]
#[derive(Clone, Debug)]
pub struct S59 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, builder)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, builder)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, builder(into))]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    d: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, default(vd(9000138)))]
    e: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S59 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S59 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S59_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 4 => self.write_e().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S59_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: true, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000138), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
];
fn s59_new() -> Handle { Handle::S(arc(S59::new())) }
fn s59_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S59::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(In(id(2))), _ => b }, |x| Handle::S(arc(x)))
}
fn s59_dflt() -> Handle { Handle::S(arc(S59::default())) }
pub static S59_META: Meta = Meta { name: "S59", fields: S59_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s59_new, dflt: Some(s59_dflt), make: Some(s59_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S59))]
pub use m_S59::*;

// shape P37
#[cfg(not(fx_no_P37))]
mod m_P37 {
use super::*;
#[fxstruct]
#[derive(Clone, Debug)]
pub struct P37 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, builder)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set, default(vd(9000139)), builder(required))]
    c: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P37 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for P37 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P37_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P37_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000139), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
];
fn p37_new() -> Handle { Handle::B(boxed(P37::new())) }
fn p37_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P37::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 2 => b.c(Val::mk(id(2))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p37_dflt() -> Handle { Handle::B(boxed(P37::default())) }
pub static P37_META: Meta = Meta { name: "P37", fields: P37_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p37_new, dflt: Some(p37_dflt), make: Some(p37_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P37))]
pub use m_P37::*;

// shape S60
#[cfg(not(fx_no_S60))]
mod m_S60 {
use super::*;
#[fxstruct(sync, copy, get, set, predicate, clearer)]
#[derive(Clone, Debug)]
pub struct S60 {
    #[fieldx(lazy)]
    a: Cid,
    #[fieldx(optional, clone)]
    b: Val,
    #[fieldx(lazy, get(clone), fallible(error(Er)))]
    c: Val,
    #[fieldx(lock, clone, predicate(off), clearer(off))]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S60 {
    fn build_a(&self) -> Cid { hook::build(self, 0) }
    fn build_c(&self) -> Result<Val, Er> { hook::build_f(self, 2) }
}
impl Obj for S60 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S60_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Cid as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 2 => self.clear_c().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S60_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 99, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Lazy, a: false, ops: 99, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Eager, a: false, ops: 34, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s60_new() -> Handle { Handle::S(arc(S60::new())) }
fn s60_dflt() -> Handle { Handle::S(arc(S60::default())) }
pub static S60_META: Meta = Meta { name: "S60", fields: S60_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s60_new, dflt: Some(s60_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S60))]
pub use m_S60::*;

// shape S61
#[cfg(not(fx_no_S61))]
mod m_S61 {
use super::*;
#[fxstruct(sync, get, set)]
#[derive(Clone, Debug)]
pub struct S61 {
    #[fieldx(lazy, predicate, clearer)]
    a: Val,
    #[fieldx(lock, default(off, vd(9000140)))]
    c: Val,
    #[fieldx(optional, predicate, default(off, vd(9000141)))]
    d: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S61 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
}
impl Obj for S61 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S61_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 2 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.c().rg(), 2 => self.d().rg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_c(<Val as FxV>::mk(id)).old(), 2 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S61_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 34, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Opt, a: false, ops: 35, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s61_new() -> Handle { Handle::S(arc(S61::new())) }
fn s61_dflt() -> Handle { Handle::S(arc(S61::default())) }
pub static S61_META: Meta = Meta { name: "S61", fields: S61_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s61_new, dflt: Some(s61_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S61))]
pub use m_S61::*;

// shape P38
#[cfg(not(fx_no_P38))]
mod m_P38 {
use super::*;
#[fxstruct(copy, get, set, predicate, clearer)]
#[derive(Clone, PartialEq, Debug)]
pub struct P38 {
    #[fieldx(lazy)]
    a: Cid,
    #[fieldx(optional, clone)]
    b: Val,
    #[fieldx(clone, inner_mut)]
    c: Val,
    #[fieldx(lazy, clone)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl P38 {
    fn build_a(&self) -> Cid { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for P38 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P38_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 2 => self.set_c(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 2 => self.clear_c().old(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Cid as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static P38_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 99, excl: 96, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: false, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 99, excl: 96, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 99, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: true, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 99, excl: 96, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn p38_new() -> Handle { Handle::B(boxed(P38::new())) }
fn p38_dflt() -> Handle { Handle::B(boxed(P38::default())) }
pub static P38_META: Meta = Meta { name: "P38", fields: P38_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: p38_new, dflt: Some(p38_dflt), make: None, post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_P38))]
pub use m_P38::*;

// shape S62
#[cfg(not(fx_no_S62))]
mod m_S62 {
use super::*;
#[fxstruct(sync, public(super), builder)]
#[derive(Clone, Debug)]
pub struct S62 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, public(in_mod = "crate::catalog"))]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, private)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, public(super))]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer)]
    d: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl S62 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Val { hook::build(self, 3) }
}
impl Obj for S62 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S62_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static S62_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
];
fn s62_new() -> Handle { Handle::S(arc(S62::new())) }
fn s62_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S62::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), _ => b }, |x| Handle::S(arc(x)))
}
fn s62_dflt() -> Handle { Handle::S(arc(S62::default())) }
pub static S62_META: Meta = Meta { name: "S62", fields: S62_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: false, new: s62_new, dflt: Some(s62_dflt), make: Some(s62_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_S62))]
pub use m_S62::*;

// shape S63
#[cfg(not(fx_no_S63))]
mod m_S63 {
use super::*;
#[fxstruct(sync, serde(default))]
#[derive(Clone, Debug)]
pub struct S63 {
    #[fieldx(lock, get, reader, get_mut, writer, set, default(Self::dv()))]
    a: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set, serde(default("crate::subjutil::sd_val")))]
    b: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, serde(default("crate::subjutil::sd_opt")))]
    c: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, serde(default("crate::subjutil::sd_opt")))]
    d: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    e: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer, default(Self::dv()))]
    f: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl S63 { fn dv() -> Val { vd(9000142) } }
impl S63 {
    fn build_d(&self) -> Val { hook::build(self, 3) }
    fn build_e(&self) -> Result<Val, Er> { hook::build_f(self, 4) }
}
impl Obj for S63 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S63_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 2 => self.has_c(), 3 => self.has_d(), 4 => self.has_e(), 5 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), 5 => self.read_f().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.write_a().wg(), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 4 => lazy_wg!(self.write_e(), Val), 5 => self.write_f().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 2 => self.clear_c().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S63_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000142), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000143), key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000144), key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000144), key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000142), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
];
fn s63_new() -> Handle { Handle::S(arc(S63::new())) }
fn s63_dflt() -> Handle { Handle::S(arc(S63::default())) }
fn s63_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S63>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S63_META: Meta = Meta { name: "S63", fields: S63_FIELDS, plain: false, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s63_new, dflt: Some(s63_dflt), make: None, post: false, post_fallible: false, deser: Some(s63_de), de_struct_default: true };
}
#[cfg(not(fx_no_S63))]
pub use m_S63::*;

// shape P39
#[cfg(not(fx_no_P39))]
mod m_P39 {
use super::*;
#[fxstruct(serde(default))]
#[derive(Clone, Debug)]
pub struct P39 {
    #[fieldx(get, get_mut, set, default(Self::dv()))]
    a: Val,
    #[fieldx(get, get_mut, set, serde(default("crate::subjutil::sd_val")))]
    b: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, serde(default("crate::subjutil::sd_opt")))]
    c: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, serde(default("crate::subjutil::sd_opt")))]
    d: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer, fallible(error(Er)))]
    e: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer, default(Self::dv()))]
    f: Val,
    #[fieldx(skip, default(Oid::default()))]
    oid: Oid,
}
impl P39 { fn dv() -> Val { vd(9000142) } }
impl P39 {
    fn build_d(&self) -> Val { hook::build(self, 3) }
    fn build_e(&self) -> Result<Val, Er> { hook::build_f(self, 4) }
}
impl Obj for P39 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P39_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 2 => self.has_c(), 3 => self.has_d(), 4 => self.has_e(), 5 => self.has_f(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 2 => self.clear_c().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P39_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000142), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000143), key: "b" },
    FieldMeta { name: "c", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000144), key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: Some(9000144), key: "d" },
    FieldMeta { name: "e", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000142), b_set: false, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
];
fn p39_new() -> Handle { Handle::B(boxed(P39::new())) }
fn p39_dflt() -> Handle { Handle::B(boxed(P39::default())) }
fn p39_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P39>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P39_META: Meta = Meta { name: "P39", fields: P39_FIELDS, plain: true, clone: true, eq: false, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p39_new, dflt: Some(p39_dflt), make: None, post: false, post_fallible: false, deser: Some(p39_de), de_struct_default: true };
}
#[cfg(not(fx_no_P39))]
pub use m_P39::*;

// shape S64
#[cfg(not(fx_no_S64))]
mod m_S64 {
use super::*;
#[fxstruct(sync, builder, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct S64 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer, default(vd(9000154)))]
    e: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    f: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    g: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    h: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    i: Val,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer, default(vd(9000159)))]
    j: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    k: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    l: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    m: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    n: Val,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer, default(vd(9000164)))]
    o: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    p: Val,
    #[fieldx(optional, predicate, get, reader, get_mut, writer, set, clearer)]
    q: Val,
    #[fieldx(lock, get, reader, get_mut, writer, set)]
    r: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    s: Val,
    #[fieldx(optional, predicate, get(clone), reader, get_mut, writer, set, clearer, default(vd(9000169)))]
    t: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl S64 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
    fn build_f(&self) -> Val { hook::build(self, 5) }
    fn build_i(&self) -> Result<Val, Er> { hook::build_f(self, 8) }
    fn build_k(&self) -> Val { hook::build(self, 10) }
    fn build_n(&self) -> Result<Val, Er> { hook::build_f(self, 13) }
    fn build_p(&self) -> Val { hook::build(self, 15) }
    fn build_s(&self) -> Result<Val, Er> { hook::build_f(self, 18) }
}
impl Obj for S64 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &S64_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), 5 => self.has_f(), 6 => self.has_g(), 8 => self.has_i(), 9 => self.has_j(), 10 => self.has_k(), 11 => self.has_l(), 13 => self.has_n(), 14 => self.has_o(), 15 => self.has_p(), 16 => self.has_q(), 18 => self.has_s(), 19 => self.has_t(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), 6 => self.g().rg(), 7 => self.h().rg(), 8 => self.i().rg(), 9 => self.j().rg(), 10 => self.k().rg(), 11 => self.l().rg(), 12 => self.m().rg(), 13 => self.n().rg(), 14 => self.o().rg(), 15 => self.p().rg(), 16 => self.q().rg(), 17 => self.r().rg(), 18 => self.s().rg(), 19 => self.t().rg(), _ => unreachable!() } }
    fn reader(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.read_a().rg(), 1 => self.read_b().rg(), 2 => self.read_c().rg(), 3 => self.read_d().rg(), 4 => self.read_e().rg(), 5 => self.read_f().rg(), 6 => self.read_g().rg(), 7 => self.read_h().rg(), 8 => self.read_i().rg(), 9 => self.read_j().rg(), 10 => self.read_k().rg(), 11 => self.read_l().rg(), 12 => self.read_m().rg(), 13 => self.read_n().rg(), 14 => self.read_o().rg(), 15 => self.read_p().rg(), 16 => self.read_q().rg(), 17 => self.read_r().rg(), 18 => self.read_s().rg(), 19 => self.read_t().rg(), _ => unreachable!() } }
    fn get_mut(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), 6 => self.g_mut().wg(), 7 => self.h_mut().wg(), 8 => self.i_mut().wg(), 9 => self.j_mut().wg(), 10 => self.k_mut().wg(), 11 => self.l_mut().wg(), 12 => self.m_mut().wg(), 13 => self.n_mut().wg(), 14 => self.o_mut().wg(), 15 => self.p_mut().wg(), 16 => self.q_mut().wg(), 17 => self.r_mut().wg(), 18 => self.s_mut().wg(), 19 => self.t_mut().wg(), _ => unreachable!() } }
    fn writer(&self, f: u8) -> R<Wgb<'_>> { match f { 0 => lazy_wg!(self.write_a(), Val), 1 => self.write_b().wg(), 2 => self.write_c().wg(), 3 => lazy_wg!(self.write_d(), Val), 4 => self.write_e().wg(), 5 => lazy_wg!(self.write_f(), Val), 6 => self.write_g().wg(), 7 => self.write_h().wg(), 8 => lazy_wg!(self.write_i(), Val), 9 => self.write_j().wg(), 10 => lazy_wg!(self.write_k(), Val), 11 => self.write_l().wg(), 12 => self.write_m().wg(), 13 => lazy_wg!(self.write_n(), Val), 14 => self.write_o().wg(), 15 => lazy_wg!(self.write_p(), Val), 16 => self.write_q().wg(), 17 => self.write_r().wg(), 18 => lazy_wg!(self.write_s(), Val), 19 => self.write_t().wg(), _ => unreachable!() } }
    fn set(&self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), 6 => self.set_g(<Val as FxV>::mk(id)).old(), 7 => self.set_h(<Val as FxV>::mk(id)).old(), 8 => self.set_i(<Val as FxV>::mk(id)).old(), 9 => self.set_j(<Val as FxV>::mk(id)).old(), 10 => self.set_k(<Val as FxV>::mk(id)).old(), 11 => self.set_l(<Val as FxV>::mk(id)).old(), 12 => self.set_m(<Val as FxV>::mk(id)).old(), 13 => self.set_n(<Val as FxV>::mk(id)).old(), 14 => self.set_o(<Val as FxV>::mk(id)).old(), 15 => self.set_p(<Val as FxV>::mk(id)).old(), 16 => self.set_q(<Val as FxV>::mk(id)).old(), 17 => self.set_r(<Val as FxV>::mk(id)).old(), 18 => self.set_s(<Val as FxV>::mk(id)).old(), 19 => self.set_t(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn clear(&self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), 6 => self.clear_g().old(), 8 => self.clear_i().old(), 9 => self.clear_j().old(), 10 => self.clear_k().old(), 11 => self.clear_l().old(), 13 => self.clear_n().old(), 14 => self.clear_o().old(), 15 => self.clear_p().old(), 16 => self.clear_q().old(), 18 => self.clear_s().old(), 19 => self.clear_t().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::S(arc(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static S64_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000154), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "g" },
    FieldMeta { name: "h", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "h" },
    FieldMeta { name: "i", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "i" },
    FieldMeta { name: "j", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000159), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "k" },
    FieldMeta { name: "l", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "l" },
    FieldMeta { name: "m", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "m" },
    FieldMeta { name: "n", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "n" },
    FieldMeta { name: "o", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000164), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "o" },
    FieldMeta { name: "p", k: K::Lazy, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "p" },
    FieldMeta { name: "q", k: K::Opt, a: false, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "q" },
    FieldMeta { name: "r", k: K::Eager, a: false, ops: 62, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "r" },
    FieldMeta { name: "s", k: K::Lazy, a: false, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "s" },
    FieldMeta { name: "t", k: K::Opt, a: false, ops: 127, excl: 0, owned: true, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(9000169), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "t" },
];
fn s64_new() -> Handle { Handle::S(arc(S64::new())) }
fn s64_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, S64::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.h(Val::mk(id(7))), 8 => b.i(Val::mk(id(8))), 9 => b.j(Val::mk(id(9))), 10 => b.k(Val::mk(id(10))), 11 => b.l(Val::mk(id(11))), 12 => b.m(Val::mk(id(12))), 13 => b.n(Val::mk(id(13))), 14 => b.o(Val::mk(id(14))), 15 => b.p(Val::mk(id(15))), 16 => b.q(Val::mk(id(16))), 17 => b.r(Val::mk(id(17))), 18 => b.s(Val::mk(id(18))), 19 => b.t(Val::mk(id(19))), _ => b }, |x| Handle::S(arc(x)))
}
fn s64_dflt() -> Handle { Handle::S(arc(S64::default())) }
fn s64_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<S64>(s).map(|x| Handle::S(arc(x))).map_err(|e| e.to_string()) }
pub static S64_META: Meta = Meta { name: "S64", fields: S64_FIELDS, plain: false, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: s64_new, dflt: Some(s64_dflt), make: Some(s64_make), post: false, post_fallible: false, deser: Some(s64_de), de_struct_default: false };
}
#[cfg(not(fx_no_S64))]
pub use m_S64::*;

// shape A31
#[cfg(not(fx_no_A31))]
mod m_A31 {
use super::*;
#[fxstruct(r#async, builder)]
#[derive(Debug)]
pub struct A31 {
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    b: Val,
    #[fieldx(lock, get, reader, writer, set)]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    e: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    f: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    g: Val,
    #[fieldx(lock, get, reader, writer, set)]
    h: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    i: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    j: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    k: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    l: Val,
    #[fieldx(lock, get, reader, writer, set)]
    m: Val,
    #[fieldx(lazy, predicate, get(clone), reader, get_mut, writer, set, clearer, fallible(error(Er)))]
    n: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    o: Val,
    #[fieldx(lazy, predicate, get, reader, get_mut, writer, set, clearer)]
    p: Val,
    #[fieldx(optional, predicate, get, reader, writer, set, clearer)]
    q: Val,
    #[fieldx(lock, get, reader, writer, set)]
    r: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), default(Oid::default()))]
    oid: Oid,
}
impl A31 {
    async fn build_a(&self) -> Val { hook::a_build(self, 0).await }
    async fn build_d(&self) -> Result<Val, Er> { hook::a_build_f(self, 3).await }
    async fn build_f(&self) -> Val { hook::a_build(self, 5).await }
    async fn build_i(&self) -> Result<Val, Er> { hook::a_build_f(self, 8).await }
    async fn build_k(&self) -> Val { hook::a_build(self, 10).await }
    async fn build_n(&self) -> Result<Val, Er> { hook::a_build_f(self, 13).await }
    async fn build_p(&self) -> Val { hook::a_build(self, 15).await }
}
impl Obj for A31 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &A31_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 3 => self.has_d(), 5 => self.has_f(), 8 => self.has_i(), 10 => self.has_k(), 13 => self.has_n(), 15 => self.has_p(), _ => unreachable!() } }
    fn a_has(&self, f: u8) -> Fut<'_, bool> { match f { 1 => Box::pin(async move { self.has_b().await }), 4 => Box::pin(async move { self.has_e().await }), 6 => Box::pin(async move { self.has_g().await }), 9 => Box::pin(async move { self.has_j().await }), 11 => Box::pin(async move { self.has_l().await }), 14 => Box::pin(async move { self.has_o().await }), 16 => Box::pin(async move { self.has_q().await }), _ => unreachable!() } }
    fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.a().await.rg() }), 1 => Box::pin(async move { self.b().await.rg() }), 2 => Box::pin(async move { self.c().await.rg() }), 3 => Box::pin(async move { self.d().await.rg() }), 4 => Box::pin(async move { self.e().await.rg() }), 5 => Box::pin(async move { self.f().await.rg() }), 6 => Box::pin(async move { self.g().await.rg() }), 7 => Box::pin(async move { self.h().await.rg() }), 8 => Box::pin(async move { self.i().await.rg() }), 9 => Box::pin(async move { self.j().await.rg() }), 10 => Box::pin(async move { self.k().await.rg() }), 11 => Box::pin(async move { self.l().await.rg() }), 12 => Box::pin(async move { self.m().await.rg() }), 13 => Box::pin(async move { self.n().await.rg() }), 14 => Box::pin(async move { self.o().await.rg() }), 15 => Box::pin(async move { self.p().await.rg() }), 16 => Box::pin(async move { self.q().await.rg() }), 17 => Box::pin(async move { self.r().await.rg() }), _ => unreachable!() } }
    fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>> { match f { 0 => Box::pin(async move { self.read_a().await.rg() }), 1 => Box::pin(async move { self.read_b().await.rg() }), 2 => Box::pin(async move { self.read_c().await.rg() }), 3 => Box::pin(async move { self.read_d().await.rg() }), 4 => Box::pin(async move { self.read_e().await.rg() }), 5 => Box::pin(async move { self.read_f().await.rg() }), 6 => Box::pin(async move { self.read_g().await.rg() }), 7 => Box::pin(async move { self.read_h().await.rg() }), 8 => Box::pin(async move { self.read_i().await.rg() }), 9 => Box::pin(async move { self.read_j().await.rg() }), 10 => Box::pin(async move { self.read_k().await.rg() }), 11 => Box::pin(async move { self.read_l().await.rg() }), 12 => Box::pin(async move { self.read_m().await.rg() }), 13 => Box::pin(async move { self.read_n().await.rg() }), 14 => Box::pin(async move { self.read_o().await.rg() }), 15 => Box::pin(async move { self.read_p().await.rg() }), 16 => Box::pin(async move { self.read_q().await.rg() }), 17 => Box::pin(async move { self.read_r().await.rg() }), _ => unreachable!() } }
    fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { self.a_mut().await.wg() }), 3 => Box::pin(async move { self.d_mut().await.wg() }), 5 => Box::pin(async move { self.f_mut().await.wg() }), 8 => Box::pin(async move { self.i_mut().await.wg() }), 10 => Box::pin(async move { self.k_mut().await.wg() }), 13 => Box::pin(async move { self.n_mut().await.wg() }), 15 => Box::pin(async move { self.p_mut().await.wg() }), _ => unreachable!() } }
    fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>> { match f { 0 => Box::pin(async move { lazy_wg!(self.write_a().await, Val) }), 1 => Box::pin(async move { self.write_b().await.wg() }), 2 => Box::pin(async move { self.write_c().await.wg() }), 3 => Box::pin(async move { lazy_wg!(self.write_d().await, Val) }), 4 => Box::pin(async move { self.write_e().await.wg() }), 5 => Box::pin(async move { lazy_wg!(self.write_f().await, Val) }), 6 => Box::pin(async move { self.write_g().await.wg() }), 7 => Box::pin(async move { self.write_h().await.wg() }), 8 => Box::pin(async move { lazy_wg!(self.write_i().await, Val) }), 9 => Box::pin(async move { self.write_j().await.wg() }), 10 => Box::pin(async move { lazy_wg!(self.write_k().await, Val) }), 11 => Box::pin(async move { self.write_l().await.wg() }), 12 => Box::pin(async move { self.write_m().await.wg() }), 13 => Box::pin(async move { lazy_wg!(self.write_n().await, Val) }), 14 => Box::pin(async move { self.write_o().await.wg() }), 15 => Box::pin(async move { lazy_wg!(self.write_p().await, Val) }), 16 => Box::pin(async move { self.write_q().await.wg() }), 17 => Box::pin(async move { self.write_r().await.wg() }), _ => unreachable!() } }
    fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.set_a(<Val as FxV>::mk(id)).await.old() }), 1 => Box::pin(async move { self.set_b(<Val as FxV>::mk(id)).await.old() }), 2 => Box::pin(async move { self.set_c(<Val as FxV>::mk(id)).await.old() }), 3 => Box::pin(async move { self.set_d(<Val as FxV>::mk(id)).await.old() }), 4 => Box::pin(async move { self.set_e(<Val as FxV>::mk(id)).await.old() }), 5 => Box::pin(async move { self.set_f(<Val as FxV>::mk(id)).await.old() }), 6 => Box::pin(async move { self.set_g(<Val as FxV>::mk(id)).await.old() }), 7 => Box::pin(async move { self.set_h(<Val as FxV>::mk(id)).await.old() }), 8 => Box::pin(async move { self.set_i(<Val as FxV>::mk(id)).await.old() }), 9 => Box::pin(async move { self.set_j(<Val as FxV>::mk(id)).await.old() }), 10 => Box::pin(async move { self.set_k(<Val as FxV>::mk(id)).await.old() }), 11 => Box::pin(async move { self.set_l(<Val as FxV>::mk(id)).await.old() }), 12 => Box::pin(async move { self.set_m(<Val as FxV>::mk(id)).await.old() }), 13 => Box::pin(async move { self.set_n(<Val as FxV>::mk(id)).await.old() }), 14 => Box::pin(async move { self.set_o(<Val as FxV>::mk(id)).await.old() }), 15 => Box::pin(async move { self.set_p(<Val as FxV>::mk(id)).await.old() }), 16 => Box::pin(async move { self.set_q(<Val as FxV>::mk(id)).await.old() }), 17 => Box::pin(async move { self.set_r(<Val as FxV>::mk(id)).await.old() }), _ => unreachable!() } }
    fn a_clear(&self, f: u8) -> Fut<'_, Old> { match f { 0 => Box::pin(async move { self.clear_a().await.old() }), 1 => Box::pin(async move { self.clear_b().await.old() }), 3 => Box::pin(async move { self.clear_d().await.old() }), 4 => Box::pin(async move { self.clear_e().await.old() }), 5 => Box::pin(async move { self.clear_f().await.old() }), 6 => Box::pin(async move { self.clear_g().await.old() }), 8 => Box::pin(async move { self.clear_i().await.old() }), 9 => Box::pin(async move { self.clear_j().await.old() }), 10 => Box::pin(async move { self.clear_k().await.old() }), 11 => Box::pin(async move { self.clear_l().await.old() }), 13 => Box::pin(async move { self.clear_n().await.old() }), 14 => Box::pin(async move { self.clear_o().await.old() }), 15 => Box::pin(async move { self.clear_p().await.old() }), 16 => Box::pin(async move { self.clear_q().await.old() }), _ => unreachable!() } }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
}
static A31_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "g" },
    FieldMeta { name: "h", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "h" },
    FieldMeta { name: "i", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "i" },
    FieldMeta { name: "j", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "k" },
    FieldMeta { name: "l", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "l" },
    FieldMeta { name: "m", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "m" },
    FieldMeta { name: "n", k: K::Lazy, a: true, ops: 127, excl: 0, owned: true, fallible: true, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "n" },
    FieldMeta { name: "o", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "o" },
    FieldMeta { name: "p", k: K::Lazy, a: true, ops: 127, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "p" },
    FieldMeta { name: "q", k: K::Opt, a: true, ops: 119, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: false, de: false, de_dflt: None, key: "q" },
    FieldMeta { name: "r", k: K::Eager, a: true, ops: 54, excl: 0, owned: false, fallible: false, unwraps: 0, into: false, lock: true, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: false, de: false, de_dflt: None, key: "r" },
];
fn a31_new() -> Handle { Handle::S(arc(A31::new())) }
fn a31_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, A31::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.h(Val::mk(id(7))), 8 => b.i(Val::mk(id(8))), 9 => b.j(Val::mk(id(9))), 10 => b.k(Val::mk(id(10))), 11 => b.l(Val::mk(id(11))), 12 => b.m(Val::mk(id(12))), 13 => b.n(Val::mk(id(13))), 14 => b.o(Val::mk(id(14))), 15 => b.p(Val::mk(id(15))), 16 => b.q(Val::mk(id(16))), 17 => b.r(Val::mk(id(17))), _ => b }, |x| Handle::S(arc(x)))
}
fn a31_dflt() -> Handle { Handle::S(arc(A31::default())) }
pub static A31_META: Meta = Meta { name: "A31", fields: A31_FIELDS, plain: false, clone: false, eq: false, dbg: true, ser: false, de: false, rc: false, deny: false, blocking: true, new: a31_new, dflt: Some(a31_dflt), make: Some(a31_make), post: false, post_fallible: false, deser: None, de_struct_default: false };
}
#[cfg(not(fx_no_A31))]
pub use m_A31::*;

// shape P40
#[cfg(not(fx_no_P40))]
mod m_P40 {
use super::*;
#[fxstruct(builder, serde)]
#[derive(Clone, PartialEq, Debug)]
pub struct P40 {
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    a: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    b: Val,
    #[fieldx(get, get_mut, set)]
    c: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)))]
    d: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, clearer, default(vd(9000154)))]
    e: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    f: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    g: Val,
    #[fieldx(get, get_mut, set)]
    h: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)))]
    i: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, clearer, default(vd(9000159)))]
    j: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    k: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    l: Val,
    #[fieldx(get, get_mut, set)]
    m: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)))]
    n: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, clearer, default(vd(9000164)))]
    o: Val,
    #[fieldx(lazy, predicate, get, get_mut, set, clearer)]
    p: Val,
    #[fieldx(optional, predicate, get, get_mut, set, clearer)]
    q: Val,
    #[fieldx(get, get_mut, set)]
    r: Val,
    #[fieldx(lazy, predicate, get(clone), get_mut, set, clearer, fallible(error(Er)))]
    s: Val,
    #[fieldx(optional, predicate, get(clone), get_mut, set, clearer, default(vd(9000169)))]
    t: Val,
    #[fieldx(lazy(off), get(off), get_mut(off), set(off), predicate(off), clearer(off), reader(off), writer(off), lock(off), optional(off), builder(off), serde(off), default(Oid::default()))]
    oid: Oid,
}
impl P40 {
    fn build_a(&self) -> Val { hook::build(self, 0) }
    fn build_d(&self) -> Result<Val, Er> { hook::build_f(self, 3) }
    fn build_f(&self) -> Val { hook::build(self, 5) }
    fn build_i(&self) -> Result<Val, Er> { hook::build_f(self, 8) }
    fn build_k(&self) -> Val { hook::build(self, 10) }
    fn build_n(&self) -> Result<Val, Er> { hook::build_f(self, 13) }
    fn build_p(&self) -> Val { hook::build(self, 15) }
    fn build_s(&self) -> Result<Val, Er> { hook::build_f(self, 18) }
}
impl Obj for P40 {
    fn oid(&self) -> u32 { self.oid.num }
    fn parent(&self) -> u32 { self.oid.parent }
    fn meta(&self) -> &'static Meta { &P40_META }
    fn any(&self) -> &dyn std::any::Any { self }
    fn has(&self, f: u8) -> bool { match f { 0 => self.has_a(), 1 => self.has_b(), 3 => self.has_d(), 4 => self.has_e(), 5 => self.has_f(), 6 => self.has_g(), 8 => self.has_i(), 9 => self.has_j(), 10 => self.has_k(), 11 => self.has_l(), 13 => self.has_n(), 14 => self.has_o(), 15 => self.has_p(), 16 => self.has_q(), 18 => self.has_s(), 19 => self.has_t(), _ => unreachable!() } }
    fn get(&self, f: u8) -> R<Rgb<'_>> { match f { 0 => self.a().rg(), 1 => self.b().rg(), 2 => self.c().rg(), 3 => self.d().rg(), 4 => self.e().rg(), 5 => self.f().rg(), 6 => self.g().rg(), 7 => self.h().rg(), 8 => self.i().rg(), 9 => self.j().rg(), 10 => self.k().rg(), 11 => self.l().rg(), 12 => self.m().rg(), 13 => self.n().rg(), 14 => self.o().rg(), 15 => self.p().rg(), 16 => self.q().rg(), 17 => self.r().rg(), 18 => self.s().rg(), 19 => self.t().rg(), _ => unreachable!() } }
    fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>> { match f { 0 => self.a_mut().wg(), 1 => self.b_mut().wg(), 2 => self.c_mut().wg(), 3 => self.d_mut().wg(), 4 => self.e_mut().wg(), 5 => self.f_mut().wg(), 6 => self.g_mut().wg(), 7 => self.h_mut().wg(), 8 => self.i_mut().wg(), 9 => self.j_mut().wg(), 10 => self.k_mut().wg(), 11 => self.l_mut().wg(), 12 => self.m_mut().wg(), 13 => self.n_mut().wg(), 14 => self.o_mut().wg(), 15 => self.p_mut().wg(), 16 => self.q_mut().wg(), 17 => self.r_mut().wg(), 18 => self.s_mut().wg(), 19 => self.t_mut().wg(), _ => unreachable!() } }
    fn xset(&mut self, f: u8, id: u32) -> Old { match f { 0 => self.set_a(<Val as FxV>::mk(id)).old(), 1 => self.set_b(<Val as FxV>::mk(id)).old(), 2 => self.set_c(<Val as FxV>::mk(id)).old(), 3 => self.set_d(<Val as FxV>::mk(id)).old(), 4 => self.set_e(<Val as FxV>::mk(id)).old(), 5 => self.set_f(<Val as FxV>::mk(id)).old(), 6 => self.set_g(<Val as FxV>::mk(id)).old(), 7 => self.set_h(<Val as FxV>::mk(id)).old(), 8 => self.set_i(<Val as FxV>::mk(id)).old(), 9 => self.set_j(<Val as FxV>::mk(id)).old(), 10 => self.set_k(<Val as FxV>::mk(id)).old(), 11 => self.set_l(<Val as FxV>::mk(id)).old(), 12 => self.set_m(<Val as FxV>::mk(id)).old(), 13 => self.set_n(<Val as FxV>::mk(id)).old(), 14 => self.set_o(<Val as FxV>::mk(id)).old(), 15 => self.set_p(<Val as FxV>::mk(id)).old(), 16 => self.set_q(<Val as FxV>::mk(id)).old(), 17 => self.set_r(<Val as FxV>::mk(id)).old(), 18 => self.set_s(<Val as FxV>::mk(id)).old(), 19 => self.set_t(<Val as FxV>::mk(id)).old(), _ => unreachable!() } }
    fn xclear(&mut self, f: u8) -> Old { match f { 0 => self.clear_a().old(), 1 => self.clear_b().old(), 3 => self.clear_d().old(), 4 => self.clear_e().old(), 5 => self.clear_f().old(), 6 => self.clear_g().old(), 8 => self.clear_i().old(), 9 => self.clear_j().old(), 10 => self.clear_k().old(), 11 => self.clear_l().old(), 13 => self.clear_n().old(), 14 => self.clear_o().old(), 15 => self.clear_p().old(), 16 => self.clear_q().old(), 18 => self.clear_s().old(), 19 => self.clear_t().old(), _ => unreachable!() } }
    fn dup(&self) -> Handle { Handle::B(boxed(self.clone())) }
    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }
    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }
    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }
}
static P40_FIELDS: &[FieldMeta] = &[
    FieldMeta { name: "a", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "a" },
    FieldMeta { name: "b", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "b" },
    FieldMeta { name: "c", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "c" },
    FieldMeta { name: "d", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "d" },
    FieldMeta { name: "e", k: K::Opt, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000154), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "e" },
    FieldMeta { name: "f", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "f" },
    FieldMeta { name: "g", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "g" },
    FieldMeta { name: "h", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "h" },
    FieldMeta { name: "i", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "i" },
    FieldMeta { name: "j", k: K::Opt, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000159), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "j" },
    FieldMeta { name: "k", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "k" },
    FieldMeta { name: "l", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "l" },
    FieldMeta { name: "m", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "m" },
    FieldMeta { name: "n", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "n" },
    FieldMeta { name: "o", k: K::Opt, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000164), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "o" },
    FieldMeta { name: "p", k: K::Lazy, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "p" },
    FieldMeta { name: "q", k: K::Opt, a: false, ops: 107, excl: 104, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "q" },
    FieldMeta { name: "r", k: K::Eager, a: false, ops: 42, excl: 40, owned: false, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(DEFAULT_ID), b_set: true, b_into: false, b_req: true, ser: true, de: true, de_dflt: None, key: "r" },
    FieldMeta { name: "s", k: K::Lazy, a: false, ops: 107, excl: 104, owned: true, fallible: true, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: None, b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "s" },
    FieldMeta { name: "t", k: K::Opt, a: false, ops: 107, excl: 104, owned: true, fallible: false, unwraps: 0, into: false, lock: false, cell: false, tracked: true, default: Some(9000169), b_set: true, b_into: false, b_req: false, ser: true, de: true, de_dflt: None, key: "t" },
];
fn p40_new() -> Handle { Handle::B(boxed(P40::new())) }
fn p40_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {
    make_body!(mk, P40::builder(), |b, f| match f { 0 => b.a(Val::mk(id(0))), 1 => b.b(Val::mk(id(1))), 2 => b.c(Val::mk(id(2))), 3 => b.d(Val::mk(id(3))), 4 => b.e(Val::mk(id(4))), 5 => b.f(Val::mk(id(5))), 6 => b.g(Val::mk(id(6))), 7 => b.h(Val::mk(id(7))), 8 => b.i(Val::mk(id(8))), 9 => b.j(Val::mk(id(9))), 10 => b.k(Val::mk(id(10))), 11 => b.l(Val::mk(id(11))), 12 => b.m(Val::mk(id(12))), 13 => b.n(Val::mk(id(13))), 14 => b.o(Val::mk(id(14))), 15 => b.p(Val::mk(id(15))), 16 => b.q(Val::mk(id(16))), 17 => b.r(Val::mk(id(17))), 18 => b.s(Val::mk(id(18))), 19 => b.t(Val::mk(id(19))), _ => b }, |x| Handle::B(boxed(x)))
}
fn p40_dflt() -> Handle { Handle::B(boxed(P40::default())) }
fn p40_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<P40>(s).map(|x| Handle::B(boxed(x))).map_err(|e| e.to_string()) }
pub static P40_META: Meta = Meta { name: "P40", fields: P40_FIELDS, plain: true, clone: true, eq: true, dbg: true, ser: true, de: true, rc: false, deny: false, blocking: false, new: p40_new, dflt: Some(p40_dflt), make: Some(p40_make), post: false, post_fallible: false, deser: Some(p40_de), de_struct_default: false };
}
#[cfg(not(fx_no_P40))]
pub use m_P40::*;

// shape -
pub static ALL: &[&Meta] = &[
    #[cfg(not(fx_no_S01))]
    &S01_META,
    #[cfg(not(fx_no_S02))]
    &S02_META,
    #[cfg(not(fx_no_S03))]
    &S03_META,
    #[cfg(not(fx_no_S04))]
    &S04_META,
    #[cfg(not(fx_no_S05))]
    &S05_META,
    #[cfg(not(fx_no_S06))]
    &S06_META,
    #[cfg(not(fx_no_S07))]
    &S07_META,
    #[cfg(not(fx_no_S08))]
    &S08_META,
    #[cfg(not(fx_no_S09))]
    &S09_META,
    #[cfg(not(fx_no_S10))]
    &S10_META,
    #[cfg(not(fx_no_S11))]
    &S11_META,
    #[cfg(not(fx_no_S12))]
    &S12_META,
    #[cfg(not(fx_no_S13))]
    &S13_META,
    #[cfg(not(fx_no_S14))]
    &S14_META,
    #[cfg(not(fx_no_S15))]
    &S15_META,
    #[cfg(not(fx_no_S16))]
    &S16_META,
    #[cfg(not(fx_no_S17))]
    &S17_META,
    #[cfg(not(fx_no_S18))]
    &S18_META,
    #[cfg(not(fx_no_S19))]
    &S19_META,
    #[cfg(not(fx_no_S20))]
    &S20_META,
    #[cfg(not(fx_no_S21))]
    &S21_META,
    #[cfg(not(fx_no_S22))]
    &S22_META,
    #[cfg(not(fx_no_S23))]
    &S23_META,
    #[cfg(not(fx_no_S24))]
    &S24_META,
    #[cfg(not(fx_no_S25))]
    &S25_META,
    #[cfg(not(fx_no_S26))]
    &S26_META,
    #[cfg(not(fx_no_S27))]
    &S27_META,
    #[cfg(not(fx_no_S28))]
    &S28_META,
    #[cfg(not(fx_no_S29))]
    &S29_META,
    #[cfg(not(fx_no_S30))]
    &S30_META,
    #[cfg(not(fx_no_S31))]
    &S31_META,
    #[cfg(not(fx_no_S32))]
    &S32_META,
    #[cfg(not(fx_no_S33))]
    &S33_META,
    #[cfg(not(fx_no_S34))]
    &S34_META,
    #[cfg(not(fx_no_S35))]
    &S35_META,
    #[cfg(not(fx_no_S36))]
    &S36_META,
    #[cfg(not(fx_no_S37))]
    &S37_META,
    #[cfg(not(fx_no_S38))]
    &S38_META,
    #[cfg(not(fx_no_A01))]
    &A01_META,
    #[cfg(not(fx_no_A02))]
    &A02_META,
    #[cfg(not(fx_no_A03))]
    &A03_META,
    #[cfg(not(fx_no_A04))]
    &A04_META,
    #[cfg(not(fx_no_A05))]
    &A05_META,
    #[cfg(not(fx_no_A06))]
    &A06_META,
    #[cfg(not(fx_no_A07))]
    &A07_META,
    #[cfg(not(fx_no_A08))]
    &A08_META,
    #[cfg(not(fx_no_A09))]
    &A09_META,
    #[cfg(not(fx_no_A10))]
    &A10_META,
    #[cfg(not(fx_no_A11))]
    &A11_META,
    #[cfg(not(fx_no_A12))]
    &A12_META,
    #[cfg(not(fx_no_A13))]
    &A13_META,
    #[cfg(not(fx_no_A14))]
    &A14_META,
    #[cfg(not(fx_no_A15))]
    &A15_META,
    #[cfg(not(fx_no_A16))]
    &A16_META,
    #[cfg(not(fx_no_A17))]
    &A17_META,
    #[cfg(not(fx_no_A18))]
    &A18_META,
    #[cfg(not(fx_no_A19))]
    &A19_META,
    #[cfg(not(fx_no_A20))]
    &A20_META,
    #[cfg(not(fx_no_A21))]
    &A21_META,
    #[cfg(not(fx_no_P01))]
    &P01_META,
    #[cfg(not(fx_no_P02))]
    &P02_META,
    #[cfg(not(fx_no_P03))]
    &P03_META,
    #[cfg(not(fx_no_P04))]
    &P04_META,
    #[cfg(not(fx_no_P05))]
    &P05_META,
    #[cfg(not(fx_no_P06))]
    &P06_META,
    #[cfg(not(fx_no_P07))]
    &P07_META,
    #[cfg(not(fx_no_P08))]
    &P08_META,
    #[cfg(not(fx_no_P09))]
    &P09_META,
    #[cfg(not(fx_no_P10))]
    &P10_META,
    #[cfg(not(fx_no_P11))]
    &P11_META,
    #[cfg(not(fx_no_P12))]
    &P12_META,
    #[cfg(not(fx_no_P13))]
    &P13_META,
    #[cfg(not(fx_no_P14))]
    &P14_META,
    #[cfg(not(fx_no_P15))]
    &P15_META,
    #[cfg(not(fx_no_P16))]
    &P16_META,
    #[cfg(not(fx_no_P17))]
    &P17_META,
    #[cfg(not(fx_no_P18))]
    &P18_META,
    #[cfg(not(fx_no_P19))]
    &P19_META,
    #[cfg(not(fx_no_P20))]
    &P20_META,
    #[cfg(not(fx_no_P21))]
    &P21_META,
    #[cfg(not(fx_no_P22))]
    &P22_META,
    #[cfg(not(fx_no_P23))]
    &P23_META,
    #[cfg(not(fx_no_P24))]
    &P24_META,
    #[cfg(not(fx_no_S39))]
    &S39_META,
    #[cfg(not(fx_no_S40))]
    &S40_META,
    #[cfg(not(fx_no_S41))]
    &S41_META,
    #[cfg(not(fx_no_S42))]
    &S42_META,
    #[cfg(not(fx_no_S43))]
    &S43_META,
    #[cfg(not(fx_no_S44))]
    &S44_META,
    #[cfg(not(fx_no_S45))]
    &S45_META,
    #[cfg(not(fx_no_S46))]
    &S46_META,
    #[cfg(not(fx_no_S47))]
    &S47_META,
    #[cfg(not(fx_no_A22))]
    &A22_META,
    #[cfg(not(fx_no_A23))]
    &A23_META,
    #[cfg(not(fx_no_A24))]
    &A24_META,
    #[cfg(not(fx_no_A25))]
    &A25_META,
    #[cfg(not(fx_no_P25))]
    &P25_META,
    #[cfg(not(fx_no_P26))]
    &P26_META,
    #[cfg(not(fx_no_P27))]
    &P27_META,
    #[cfg(not(fx_no_P28))]
    &P28_META,
    #[cfg(not(fx_no_P29))]
    &P29_META,
    #[cfg(not(fx_no_S48))]
    &S48_META,
    #[cfg(not(fx_no_A26))]
    &A26_META,
    #[cfg(not(fx_no_S49))]
    &S49_META,
    #[cfg(not(fx_no_S50))]
    &S50_META,
    #[cfg(not(fx_no_S51))]
    &S51_META,
    #[cfg(not(fx_no_A27))]
    &A27_META,
    #[cfg(not(fx_no_P30))]
    &P30_META,
    #[cfg(not(fx_no_P31))]
    &P31_META,
    #[cfg(not(fx_no_P32))]
    &P32_META,
    #[cfg(not(fx_no_S52))]
    &S52_META,
    #[cfg(not(fx_no_S53))]
    &S53_META,
    #[cfg(not(fx_no_S54))]
    &S54_META,
    #[cfg(not(fx_no_A28))]
    &A28_META,
    #[cfg(not(fx_no_P33))]
    &P33_META,
    #[cfg(not(fx_no_S55))]
    &S55_META,
    #[cfg(not(fx_no_A29))]
    &A29_META,
    #[cfg(not(fx_no_P34))]
    &P34_META,
    #[cfg(not(fx_no_S56))]
    &S56_META,
    #[cfg(not(fx_no_A30))]
    &A30_META,
    #[cfg(not(fx_no_S57))]
    &S57_META,
    #[cfg(not(fx_no_S58))]
    &S58_META,
    #[cfg(not(fx_no_P35))]
    &P35_META,
    #[cfg(not(fx_no_P36))]
    &P36_META,
    #[cfg(not(fx_no_S59))]
    &S59_META,
    #[cfg(not(fx_no_P37))]
    &P37_META,
    #[cfg(not(fx_no_S60))]
    &S60_META,
    #[cfg(not(fx_no_S61))]
    &S61_META,
    #[cfg(not(fx_no_P38))]
    &P38_META,
    #[cfg(not(fx_no_S62))]
    &S62_META,
    #[cfg(not(fx_no_S63))]
    &S63_META,
    #[cfg(not(fx_no_P39))]
    &P39_META,
    #[cfg(not(fx_no_S64))]
    &S64_META,
    #[cfg(not(fx_no_A31))]
    &A31_META,
    #[cfg(not(fx_no_P40))]
    &P40_META,
];
