//! The uniform face of every struct of the catalogue, and the glue from whatever type a generated helper returns.
use crate::plan::*;
use crate::val::*;
use std::cell::{Ref, RefMut};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub type R<T> = Result<T, u32>;
pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type Rgb<'a> = Box<dyn Rg + 'a>;
pub type Wgb<'a> = Box<dyn Wg + 'a>;
pub type Old = Option<Rd>;

// --- what can be seen through a shared or mutable reference ----------------------------------------------------------

pub trait Peek {
    fn peek(&self) -> Option<Rd>;
}
impl Peek for Val {
    fn peek(&self) -> Option<Rd> {
        Some(self.rd())
    }
}
impl Peek for Cid {
    fn peek(&self) -> Option<Rd> {
        Some(self.rd())
    }
}
impl Peek for Big {
    fn peek(&self) -> Option<Rd> {
        Some(self.rd())
    }
}
impl Peek for String {
    fn peek(&self) -> Option<Rd> {
        Some(self.rd())
    }
}
impl<T: FxV> Peek for Option<T> {
    fn peek(&self) -> Option<Rd> {
        self.as_ref().map(|v| v.rd())
    }
}

pub trait Slot: Peek {
    const CAN_CLEAR: bool;
    fn put(&mut self, id: u32) -> Old;
    fn clear(&mut self) -> Old;
}
macro_rules! slot {
    ($t:ty) => {
        impl Slot for $t {
            const CAN_CLEAR: bool = false;
            fn put(&mut self, id: u32) -> Old {
                let old = std::mem::replace(self, <$t as FxV>::mk(id));
                Some(old.rd())
            }
            fn clear(&mut self) -> Old {
                unreachable!()
            }
        }
    };
}
slot!(Val);
slot!(Cid);
slot!(Big);
slot!(String);
impl<T: FxV> Slot for Option<T> {
    const CAN_CLEAR: bool = true;
    fn put(&mut self, id: u32) -> Old {
        let old = self.replace(T::mk(id));
        old.peek()
    }
    fn clear(&mut self) -> Old {
        let old = self.take();
        old.peek()
    }
}

/// Something an accessor or reader returned.
pub trait Rg {
    fn peek(&self) -> Option<Rd>;
    /// true: a guard or reference into the object; false: an owned copy
    fn live(&self) -> bool {
        true
    }
}
struct ByRef<G>(G);
impl<G: std::ops::Deref> Rg for ByRef<G>
where
    G::Target: Peek,
{
    fn peek(&self) -> Option<Rd> {
        (*self.0).peek()
    }
}
struct Owned<T>(T);
impl<T: Peek> Rg for Owned<T> {
    fn peek(&self) -> Option<Rd> {
        self.0.peek()
    }
    fn live(&self) -> bool {
        false
    }
}
struct OptRef<'a, T>(Option<&'a T>);
impl<'a, T: FxV> Rg for OptRef<'a, T> {
    fn peek(&self) -> Option<Rd> {
        self.0.map(|v| v.rd())
    }
}

pub trait IntoRg<'a> {
    fn rg(self) -> R<Rgb<'a>>;
}
impl<'a, T: Peek> IntoRg<'a> for &'a T {
    fn rg(self) -> R<Rgb<'a>> {
        Ok(Box::new(ByRef(self)))
    }
}
impl<'a> IntoRg<'a> for Val {
    fn rg(self) -> R<Rgb<'a>> {
        Ok(Box::new(Owned(self)))
    }
}
impl<'a> IntoRg<'a> for Cid {
    fn rg(self) -> R<Rgb<'a>> {
        Ok(Box::new(Owned(self)))
    }
}
impl<'a> IntoRg<'a> for Big {
    fn rg(self) -> R<Rgb<'a>> {
        Ok(Box::new(Owned(self)))
    }
}
impl<'a> IntoRg<'a> for String {
    fn rg(self) -> R<Rgb<'a>> {
        Ok(Box::new(Owned(self)))
    }
}
impl<'a, T: FxV + 'a> IntoRg<'a> for Option<T> {
    fn rg(self) -> R<Rgb<'a>> {
        Ok(Box::new(Owned(self)))
    }
}
/// `get(as_ref)` on optional fields
pub fn rg_opt<'a, T: FxV>(o: Option<&'a T>) -> R<Rgb<'a>> {
    Ok(Box::new(OptRef(o)))
}
macro_rules! guard {
    ($($g:path),*) => { $(
        impl<'a, T: Peek + 'a> IntoRg<'a> for $g {
            fn rg(self) -> R<Rgb<'a>> {
                Ok(Box::new(ByRef(self)))
            }
        }
    )* };
}
type PRd<'a, T> = parking_lot::RwLockReadGuard<'a, T>;
type PMr<'a, T> = parking_lot::MappedRwLockReadGuard<'a, T>;
type PWr<'a, T> = parking_lot::RwLockWriteGuard<'a, T>;
type PMw<'a, T> = parking_lot::MappedRwLockWriteGuard<'a, T>;
type TRd<'a, T> = tokio::sync::RwLockReadGuard<'a, T>;
type TWr<'a, T> = tokio::sync::RwLockWriteGuard<'a, T>;
type TMw<'a, T> = tokio::sync::RwLockMappedWriteGuard<'a, T>;
type CRd<'a, T> = Ref<'a, T>;
type CWr<'a, T> = RefMut<'a, T>;
guard!(PRd<'a, T>, PMr<'a, T>, TRd<'a, T>, CRd<'a, T>);
impl<'a, G: IntoRg<'a>> IntoRg<'a> for Result<G, Er> {
    fn rg(self) -> R<Rgb<'a>> {
        match self {
            Ok(g) => g.rg(),
            Err(e) => Err(e.0),
        }
    }
}

/// A mutable accessor's or writer's guard.
pub trait Wg {
    /// None: the guard gives no read access
    fn peek(&self) -> Option<Option<Rd>>;
    fn put(&mut self, id: u32) -> Old;
    fn can_clear(&self) -> bool;
    fn clear(&mut self) -> Old;
    /// the lazy writer guard: neither demands a value nor shows one
    fn blind(&self) -> bool {
        false
    }
}
struct ByMut<G>(G);
impl<G: std::ops::DerefMut> Wg for ByMut<G>
where
    G::Target: Slot + Sized,
{
    fn peek(&self) -> Option<Option<Rd>> {
        Some((*self.0).peek())
    }
    fn put(&mut self, id: u32) -> Old {
        (*self.0).put(id)
    }
    fn can_clear(&self) -> bool {
        <G::Target as Slot>::CAN_CLEAR
    }
    fn clear(&mut self) -> Old {
        (*self.0).clear()
    }
}
pub trait IntoWg<'a> {
    fn wg(self) -> R<Wgb<'a>>;
}
macro_rules! wguard {
    ($($g:path),*) => { $(
        impl<'a, T: Slot + 'a> IntoWg<'a> for $g {
            fn wg(self) -> R<Wgb<'a>> {
                Ok(Box::new(ByMut(self)))
            }
        }
    )* };
}
wguard!(PWr<'a, T>, PMw<'a, T>, TWr<'a, T>, TMw<'a, T>, CWr<'a, T>);
impl<'a, T: Slot> IntoWg<'a> for &'a mut T {
    fn wg(self) -> R<Wgb<'a>> {
        Ok(Box::new(ByMut(self)))
    }
}
impl<'a, G: IntoWg<'a>> IntoWg<'a> for Result<G, Er> {
    fn wg(self) -> R<Wgb<'a>> {
        match self {
            Ok(g) => g.wg(),
            Err(e) => Err(e.0),
        }
    }
}
pub struct LazyW<F: FnMut(Option<u32>) -> Old>(pub F);
impl<F: FnMut(Option<u32>) -> Old> Wg for LazyW<F> {
    fn peek(&self) -> Option<Option<Rd>> {
        None
    }
    fn put(&mut self, id: u32) -> Old {
        (self.0)(Some(id))
    }
    fn can_clear(&self) -> bool {
        true
    }
    fn clear(&mut self) -> Old {
        (self.0)(None)
    }
    fn blind(&self) -> bool {
        true
    }
}
/// The writer guard of a lazy field (whatever its type is).
#[macro_export]
macro_rules! lazy_wg {
    ($g:expr, $t:ty) => {{
        #[allow(unused_mut)]
        let mut g = $g;
        let b: $crate::obj::Wgb<'_> = Box::new($crate::obj::LazyW(move |x: Option<u32>| match x {
            Some(id) => $crate::obj::Peek::peek(&g.store(<$t as $crate::val::FxV>::mk(id))),
            None => $crate::obj::Peek::peek(&g.clear()),
        }));
        Ok(b)
    }};
}

/// Displaced values: whatever setters and clearers return.
pub trait IntoOld {
    fn old(self) -> Old;
}
impl IntoOld for Val {
    fn old(self) -> Old {
        Some(self.rd())
    }
}
impl IntoOld for Cid {
    fn old(self) -> Old {
        Some(self.rd())
    }
}
impl IntoOld for Big {
    fn old(self) -> Old {
        Some(self.rd())
    }
}
impl IntoOld for String {
    fn old(self) -> Old {
        Some(self.rd())
    }
}
impl<T: FxV> IntoOld for Option<T> {
    fn old(self) -> Old {
        self.peek()
    }
}

// --- objects --------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Lazy,
    Opt,
    Eager,
}

pub mod ops {
    pub const HAS: u16 = 1;
    pub const GET: u16 = 2;
    pub const READER: u16 = 4;
    pub const GET_MUT: u16 = 8;
    pub const WRITER: u16 = 16;
    pub const SET: u16 = 32;
    pub const CLEAR: u16 = 64;
    pub const TOUCH: u16 = 128;
}

#[derive(Clone, Debug)]
pub struct FieldMeta {
    pub name:     &'static str,
    pub k:        K,
    /// helpers of this field are async
    pub a:        bool,
    pub ops:      u16,
    /// those of `ops` that need `&mut self`
    pub excl:     u16,
    /// get() returns an owned copy
    pub owned:    bool,
    pub fallible: bool,
    /// those of `ops` that panic when the builder returns an error
    pub unwraps:  u16,
    /// setter converts its argument
    pub into:     bool,
    /// guarded by a lock (guards exclude)
    pub lock:     bool,
    /// RefCell
    pub cell:     bool,
    pub tracked:  bool,
    /// value declared with `default`, or the type's Default for eager fields
    pub default:  Option<u32>,
    /// has a builder setter; required
    pub b_set:    bool,
    pub b_into:   bool,
    pub b_req:    bool,
    pub ser:      bool,
    pub de:       bool,
    /// default used when missing from the input (None: missing is an error or unset, see `de_opt`)
    pub de_dflt:  Option<u32>,
    /// serialised name
    pub key:      &'static str,
}

pub struct Meta {
    pub name:     &'static str,
    pub fields:   &'static [FieldMeta],
    pub plain:    bool,
    pub clone:    bool,
    pub eq:       bool,
    pub dbg:      bool,
    pub ser:      bool,
    pub de:       bool,
    pub rc:       bool,
    /// unknown fields in the input are an error
    pub deny:     bool,
    /// clone/eq/debug block with tokio's blocking_* and must not run inside a future
    pub blocking: bool,
    pub new:      fn() -> Handle,
    pub dflt:     Option<fn() -> Handle>,
    pub make:     Option<fn(&Make, &mut dyn FnMut(u8) -> u32) -> Made>,
    pub post:     bool,
    pub post_fallible: bool,
    pub deser:    Option<fn(&str) -> Result<Handle, String>>,
    /// whole-input default of the shadow struct: a missing field takes this value
    pub de_struct_default: bool,
}

/// What happened while using a struct builder: per build() call.
pub struct Made {
    pub calls: Vec<Result<Handle, String>>,
}

pub trait Obj {
    fn oid(&self) -> u32;
    fn parent(&self) -> u32;
    fn meta(&self) -> &'static Meta;
    fn has(&self, _f: u8) -> bool {
        unreachable!("has")
    }
    fn get(&self, _f: u8) -> R<Rgb<'_>> {
        unreachable!("get")
    }
    fn reader(&self, _f: u8) -> R<Rgb<'_>> {
        unreachable!("reader")
    }
    fn get_mut(&self, _f: u8) -> R<Wgb<'_>> {
        unreachable!("get_mut")
    }
    fn writer(&self, _f: u8) -> R<Wgb<'_>> {
        unreachable!("writer")
    }
    fn set(&self, _f: u8, _id: u32) -> Old {
        unreachable!("set")
    }
    fn clear(&self, _f: u8) -> Old {
        unreachable!("clear")
    }
    fn xget_mut(&mut self, _f: u8) -> R<Wgb<'_>> {
        unreachable!("xget_mut")
    }
    fn xset(&mut self, _f: u8, _id: u32) -> Old {
        unreachable!("xset")
    }
    fn xclear(&mut self, _f: u8) -> Old {
        unreachable!("xclear")
    }
    fn touch(&self, _f: u8) {
        unreachable!("touch")
    }
    fn a_touch(&self, _f: u8) -> Fut<'_, ()> {
        unreachable!("a_touch")
    }
    fn a_has(&self, _f: u8) -> Fut<'_, bool> {
        unreachable!("a_has")
    }
    fn a_get(&self, _f: u8) -> Fut<'_, R<Rgb<'_>>> {
        unreachable!("a_get")
    }
    fn a_reader(&self, _f: u8) -> Fut<'_, R<Rgb<'_>>> {
        unreachable!("a_reader")
    }
    fn a_get_mut(&self, _f: u8) -> Fut<'_, R<Wgb<'_>>> {
        unreachable!("a_get_mut")
    }
    fn a_writer(&self, _f: u8) -> Fut<'_, R<Wgb<'_>>> {
        unreachable!("a_writer")
    }
    fn a_set(&self, _f: u8, _id: u32) -> Fut<'_, Old> {
        unreachable!("a_set")
    }
    fn a_clear(&self, _f: u8) -> Fut<'_, Old> {
        unreachable!("a_clear")
    }
    fn dup(&self) -> Handle {
        unreachable!("clone")
    }
    fn eq(&self, _o: &dyn Obj) -> bool {
        unreachable!("eq")
    }
    fn dbg(&self, _w: &mut dyn std::fmt::Write, _alt: bool) -> std::fmt::Result {
        unreachable!("debug")
    }
    fn ser(&self, _w: &mut dyn std::io::Write) -> Result<(), String> {
        unreachable!("serialize")
    }
    fn myself(&self) -> Option<Handle> {
        unreachable!("myself")
    }
    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> {
        unreachable!("weak")
    }
    fn any(&self) -> &dyn std::any::Any;
}

pub type Shared = Arc<dyn Obj + Send + Sync>;

pub enum Handle {
    S(Shared),
    P(std::rc::Rc<dyn Obj>),
    B(Box<dyn Obj>),
}
impl Handle {
    pub fn o(&self) -> &dyn Obj {
        match self {
            Handle::S(a) => &**a,
            Handle::P(p) => &**p,
            Handle::B(b) => &**b,
        }
    }
    pub fn mu(&mut self) -> Option<&mut dyn Obj> {
        match self {
            Handle::S(a) => Arc::get_mut(a).map(|x| x as &mut dyn Obj),
            Handle::P(p) => std::rc::Rc::get_mut(p).map(|x| x as &mut dyn Obj),
            Handle::B(b) => Some(&mut **b),
        }
    }
    pub fn share(&self) -> Option<Handle> {
        match self {
            Handle::S(a) => Some(Handle::S(a.clone())),
            Handle::P(p) => Some(Handle::P(p.clone())),
            Handle::B(_) => None,
        }
    }
}
