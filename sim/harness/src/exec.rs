//! Executes plans: clients, operations, guards held across steps, builder scripts, object-level operations.
use crate::obj::*;
use crate::plan::*;
use crate::state::*;
use crate::val::*;
use simrt::atomic::AtomicWord;
use simrt::{kind, Gate, YieldFut};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

pub const OWNER: u8 = 255;
pub const LOCAL: u8 = 100;

pub struct Shared_ {
    pub gate:      Gate,
    pub waiting:   AtomicU32,
    pub remaining: AtomicU32,
    pub words:     Vec<AtomicWord>,
    pub weak:      bool,
    /// tasks waiting for the gate
    pub wakers:    std::sync::Mutex<Vec<std::task::Waker>>,
}

impl Shared_ {
    fn check(&self) {
        if !self.gate.is_open() && self.waiting.load(Ordering::SeqCst) == self.remaining.load(Ordering::SeqCst) {
            self.gate.open();
            let v = std::mem::take(&mut *self.wakers.lock().unwrap());
            for w in v {
                w.wake();
            }
        }
    }
}

/// A task's way to wait for the gate.
struct GateFut {
    sh:   Arc<Shared_>,
    here: bool,
}
impl Future for GateFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.sh.gate.is_open() {
            return Poll::Ready(());
        }
        self.sh.wakers.lock().unwrap().push(cx.waker().clone());
        if !self.here {
            self.here = true;
            self.sh.waiting.fetch_add(1, Ordering::SeqCst);
            self.sh.clone().check();
        }
        Poll::Pending
    }
}
impl Drop for GateFut {
    fn drop(&mut self) {
        if self.here {
            self.sh.waiting.fetch_sub(1, Ordering::SeqCst);
        }
    }
}

pub struct SlotC {
    h:      UnsafeCell<Option<Handle>>,
    shared: Cell<u32>,
    excl:   Cell<bool>,
    rc:     bool,
    oid:    u32,
}

impl SlotC {
    pub fn new(h: Handle) -> Rc<SlotC> {
        let rc = h.o().meta().rc;
        let oid = h.o().oid();
        if rc {
            *rs().strong.entry(oid).or_insert(0) += 1;
        }
        Rc::new(SlotC { h: UnsafeCell::new(Some(h)), shared: Cell::new(0), excl: Cell::new(false), rc, oid })
    }
    fn live(&self) -> bool {
        unsafe { (*self.h.get()).is_some() }
    }
    pub fn handle(&self) -> Option<&Handle> {
        unsafe { (*self.h.get()).as_ref() }
    }
    /// Take the handle out to hand it to somebody else.
    pub fn take(&self) -> Option<Handle> {
        let h = unsafe { (*self.h.get()).take() };
        if h.is_some() && self.rc {
            *rs().strong.entry(self.oid).or_insert(0) -= 1;
        }
        h
    }
    /// Drop the handle; checks that a reference-counted object goes away with its last strong handle.
    pub fn drop_handle(&self) -> bool {
        if self.shared.get() > 0 || self.excl.get() {
            return false;
        }
        let Some(h) = (unsafe { (*self.h.get()).take() })
        else {
            return false;
        };
        let last = if self.rc {
            let mut r = rs();
            let n = r.strong.entry(self.oid).or_insert(0);
            *n -= 1;
            *n == 0 && r.upgrading == 0
        }
        else {
            false
        };
        drop(h);
        if last {
            let mut r = rs();
            if r.oids.get(&self.oid).map_or(0, |o| o.drops) == 0 && r.strong.get(&self.oid) == Some(&0) {
                let t = format!("object {} still alive after its last strong handle was dropped", self.oid);
                r.viols.push(Viol { class: Class::Rc, text: t, f: None });
            }
        }
        true
    }
}
impl Drop for SlotC {
    fn drop(&mut self) {
        self.shared.set(0);
        self.excl.set(false);
        self.drop_handle();
    }
}

struct Use<'a>(&'a SlotC, bool);
impl<'a> Use<'a> {
    fn shared(s: &'a SlotC) -> Option<Use<'a>> {
        if s.excl.get() || !s.live() {
            return None;
        }
        s.shared.set(s.shared.get() + 1);
        Some(Use(s, false))
    }
    fn excl(s: &'a SlotC) -> Option<Use<'a>> {
        if s.excl.get() || s.shared.get() > 0 || !s.live() {
            return None;
        }
        s.excl.set(true);
        Some(Use(s, true))
    }
}
impl Drop for Use<'_> {
    fn drop(&mut self) {
        if self.1 {
            self.0.excl.set(false)
        }
        else {
            self.0.shared.set(self.0.shared.get() - 1)
        }
    }
}

pub struct World {
    pub me:     usize,
    pub meta:   &'static Meta,
    pub shared: Vec<Rc<SlotC>>,
    pub local:  RefCell<Vec<Rc<SlotC>>>,
    pub weaks:  RefCell<Vec<(u32, Box<dyn Fn() -> Option<Handle>>)>>,
    pub text:   RefCell<Option<(u32, String)>>,
    pub sh:     Arc<Shared_>,
}

thread_local! {
    static WORLD: Cell<*const World> = const { Cell::new(std::ptr::null()) };
    pub static POST: RefCell<Option<BOut>> = const { RefCell::new(None) };
    static POST_RUNS: Cell<u32> = const { Cell::new(0) };
}

fn world() -> Option<&'static World> {
    let p = WORLD.with(|w| w.get());
    if p.is_null() {
        None
    }
    else {
        Some(unsafe { &*p })
    }
}

// --- small future helpers -------------------------------------------------------------------------------------------

struct Catch<F>(Pin<Box<F>>);
impl<F: Future> Future for Catch<F> {
    type Output = Result<F::Output, Box<dyn Any + Send>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}
fn catch<F: Future>(f: F) -> Catch<F> {
    Catch(Box::pin(f))
}

pub struct AssertSend<F>(Pin<Box<F>>);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: Future> Future for AssertSend<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}

pub struct SendBox<T>(pub T);
unsafe impl<T> Send for SendBox<T> {}

// --- the builder hook -----------------------------------------------------------------------------------------------

async fn build_body(o: &dyn Obj, f: u8, fallible: bool) -> Result<u32, Er> {
    simrt::yield_point(kind::CALLBACK);
    let (att, script) = att_begin(o.oid(), f, o.parent());
    if let Some(s) = &script {
        for st in &s.pre {
            step(st, None, Some(o)).await;
        }
    }
    simrt::yield_point(kind::CALLBACK);
    match script.map_or(BOut::Ok, |s| s.out) {
        BOut::Err if fallible => {
            let id = fresh_id();
            fired("lazy builder error");
            att.finish(AttOut::Err(id));
            Err(Er(id))
        }
        BOut::Panic | BOut::Err => {
            // the attempt guard sees the unwinding
            sim_panic("panic in lazy builder")
        }
        BOut::Ok => {
            let id = fresh_id();
            bump_word();
            att.finish(AttOut::Ok(id));
            Ok(id)
        }
    }
}

pub mod hook {
    use super::*;
    pub fn build<V: FxV>(o: &dyn Obj, f: u8) -> V {
        match simrt::block_on(build_body(o, f, false)) {
            Ok(id) => V::mk(id),
            Err(_) => unreachable!(),
        }
    }
    pub fn build_f<V: FxV>(o: &dyn Obj, f: u8) -> Result<V, Er> {
        simrt::block_on(build_body(o, f, true)).map(V::mk)
    }
    pub fn a_build<'a, V: FxV + 'a>(o: &'a (dyn Obj + Sync), f: u8) -> AssertSend<impl Future<Output = V> + 'a> {
        AssertSend(Box::pin(async move {
            match build_body(o, f, false).await {
                Ok(id) => V::mk(id),
                Err(_) => unreachable!(),
            }
        }))
    }
    pub fn a_build_f<'a, V: FxV + 'a>(
        o: &'a (dyn Obj + Sync),
        f: u8,
    ) -> AssertSend<impl Future<Output = Result<V, Er>> + 'a> {
        AssertSend(Box::pin(async move { build_body(o, f, true).await.map(V::mk) }))
    }
    /// post-build hook of struct builders
    pub fn post(_o: &dyn Obj) -> Result<(), Er> {
        POST_RUNS.with(|p| p.set(p.get() + 1));
        simrt::yield_point(kind::CALLBACK);
        match POST.with(|p| *p.borrow()) {
            Some(BOut::Panic) => sim_panic("panic in post-build hook"),
            Some(BOut::Err) => {
                fired("post-build error");
                Err(Er(77))
            }
            _ => Ok(()),
        }
    }
}

fn bump_word() {
    if let Some(w) = world() {
        if w.sh.weak {
            let n = {
                let mut r = rs();
                let n = r.data.entry(tid()).or_insert(0);
                *n += 1;
                *n
            };
            if let Some(x) = w.sh.words.get(w.me) {
                x.store(n, Ordering::Relaxed);
            }
            if let Some(s) = cur_sub() {
                rs().hist[s].data = n;
            }
        }
    }
}

// --- steps ----------------------------------------------------------------------------------------------------------

enum G<'g, 'o> {
    R(&'g mut Rgb<'o>),
    W(&'g mut Wgb<'o>),
}
struct Held<'g, 'o> {
    g:      G<'g, 'o>,
    o:      &'o dyn Obj,
    f:      u8,
    h:      H,
    expect: Option<Option<Rd>>,
}

fn peek_check(x: &mut Held<'_, '_>) {
    let now = match &x.g {
        G::R(g) => Some(g.peek()),
        G::W(g) => g.peek(),
    };
    if let (Some(a), Some(e)) = (now, x.expect) {
        if a.map(|r| r.id) != e.map(|r| r.id) {
            violf(
                Class::Guard,
                x.f,
                format!(
                    "field {} of object {} showed {:?} through a live guard, then {:?}",
                    x.f,
                    x.o.oid(),
                    e.map(|r| r.id),
                    a.map(|r| r.id)
                ),
            );
        }
    }
    if now.is_some() {
        x.expect = now;
    }
}

fn step<'a>(st: &'a Step, held: Option<&'a mut Held<'_, '_>>, owner: Option<&'a dyn Obj>) -> Fut<'a, ()> {
    // the lifetimes of Held are only used synchronously
    let held: Option<&'a mut Held<'a, 'a>> = unsafe { std::mem::transmute(held) };
    Box::pin(async move {
        match st {
            Step::Yield(n) => YieldFut(*n).await,
            Step::Sleep(n) => {
                YieldFut(1).await;
                simrt::sleep(*n as u64);
            }
            Step::WaitGate => {
                if let Some(w) = world() {
                    YieldFut(1).await;
                    if pooled() {
                        GateFut { sh: w.sh.clone(), here: false }.await;
                    }
                    else if !w.sh.gate.is_open() {
                        w.sh.waiting.fetch_add(1, Ordering::SeqCst);
                        w.sh.check();
                        w.sh.gate.wait("gate");
                        w.sh.waiting.fetch_sub(1, Ordering::SeqCst);
                    }
                }
            }
            Step::Panic => {
                if held.is_some() {
                    sim_panic("panic with guard held")
                }
            }
            Step::Unwind(op) => {
                struct Cleanup<'a>(&'a Op, Option<&'a dyn Obj>);
                impl Drop for Cleanup<'_> {
                    fn drop(&mut self) {
                        fired("operation performed while unwinding");
                        let _ = catch_unwind(AssertUnwindSafe(|| simrt::block_on(run_op(self.0, self.1))));
                    }
                }
                let _cleanup = Cleanup(op, owner);
                sim_panic(if held.is_some() { "panic with guard held" } else { "panic in lazy builder" })
            }
            Step::Op(op) => run_op(op, owner).await,
            Step::Peek => {
                if let Some(x) = held {
                    peek_check(x);
                    simrt::yield_point(kind::USER);
                    peek_check(x);
                }
            }
            Step::Put => {
                if let Some(x) = held {
                    peek_check(x);
                    if let G::W(g) = &mut x.g {
                        let id = fresh_id();
                        bump_word();
                        let s = sub_begin(x.o.oid(), x.f, x.h, M::Put(id), FrameKind::NoBuild, &[]);
                        bump_note(s.ix);
                        let old = g.put(id);
                        s.end(Res::Old(old));
                        if x.expect.is_some() || g.peek().is_some() {
                            x.expect = Some(Some(Rd { id, gen: 0, inst: 0 }));
                            peek_check(x);
                        }
                    }
                }
            }
            Step::Take => {
                if let Some(x) = held {
                    peek_check(x);
                    if let G::W(g) = &mut x.g {
                        if g.can_clear() {
                            let s = sub_begin(x.o.oid(), x.f, x.h, M::Clear, FrameKind::NoBuild, &[]);
                            let old = g.clear();
                            s.end(Res::Old(old));
                            if x.expect.is_some() {
                                x.expect = Some(None);
                                peek_check(x);
                            }
                        }
                    }
                }
            }
        }
    })
}

fn bump_note(ix: usize) {
    let mut r = rs();
    let d = r.data.get(&tid()).copied().unwrap_or(0);
    r.hist[ix].data = d;
}

// --- elementary operations ------------------------------------------------------------------------------------------

fn is_sim(p: &(dyn Any + Send)) -> Option<&'static str> {
    p.downcast_ref::<SimPanic>().map(|s| s.what)
}

/// After a panic came out of an operation: was it one we injected there?
fn judge_panic(ix: usize, p: &(dyn Any + Send), cell_conflict: bool, unwraps: bool) {
    let (own_att_panicked, fired_here, desc, f, unwrapped) = {
        let r = rs();
        let s = &r.hist[ix];
        (
            s.atts.iter().any(|a| r.atts[*a].out == AttOut::Panic)
                || r.atts.iter().any(|a| a.sub == Some(ix) && a.out == AttOut::Panic),
            !s.fired.is_empty(),
            format!("{:?} of field {} of object {}", s.h, s.f, s.oid),
            s.f,
            // an infallible way in, and the builder refused
            unwraps && s.atts.last().is_some_and(|a| matches!(r.atts[*a].out, AttOut::Err(_))),
        )
    };
    match is_sim(p) {
        Some(what) => {
            if !(own_att_panicked || fired_here) {
                violf(Class::Panic, f, format!("{desc} received a panic that belongs to another access: {what}"));
            }
        }
        None => {
            if !cell_conflict && !unwrapped {
                violf(Class::Panic, f, format!("{desc} panicked: {}", simrt::panic_text(p)));
            }
        }
    }
}

/// Injected panics must reach the access they happened in.
fn judge_ok(ix: usize) {
    let t = {
        let r = rs();
        let s = &r.hist[ix];
        if s.h == H::Ser {
            return;
        }
        if s.atts.iter().any(|a| r.atts[*a].out == AttOut::Panic) {
            format!("{:?} of field {} of object {} swallowed the panic of its builder", s.h, s.f, s.oid)
        }
        else {
            return;
        }
    };
    viol(Class::Panic, t);
}

fn cell_conflict(oid: u32, f: u8, write: bool) -> bool {
    let r = rs();
    match r.cells.get(&(oid, f)) {
        Some((rd, wr)) => *wr > 0 || (write && *rd > 0),
        None => false,
    }
}

struct CellG(u32, u8, bool);
impl CellG {
    fn new(oid: u32, f: u8, write: bool) -> CellG {
        let mut r = rs();
        let e = r.cells.entry((oid, f)).or_insert((0, 0));
        if write {
            e.1 += 1
        }
        else {
            e.0 += 1
        }
        CellG(oid, f, write)
    }
}
impl Drop for CellG {
    fn drop(&mut self) {
        if let Some(e) = rs().cells.get_mut(&(self.0, self.1)) {
            if self.2 {
                e.1 -= 1
            }
            else {
                e.0 -= 1
            }
        }
    }
}

enum Out<T> {
    Ok(T, usize),
    Err,
    Panic,
}

async fn elem<T>(
    o: &dyn Obj,
    op: &Op,
    m: M,
    kind_: FrameKind,
    conflict: bool,
    fut: impl Future<Output = Result<T, u32>>,
    res: impl FnOnce(&T) -> Res,
) -> Out<T> {
    let oid = o.oid();
    if matches!(m, M::Set(_)) {
        bump_word();
    }
    let s = sub_begin(oid, op.f, op.h, m, kind_, &op.build);
    let ix = s.ix;
    set_fault(op.fault);
    let r = catch(fut).await;
    set_fault(None);
    match r {
        Ok(Ok(v)) => {
            let rr = res(&v);
            s.end(rr);
            judge_ok(ix);
            if conflict {
                viol(
                    Class::Borrow,
                    format!("{:?} of field {} of object {oid} succeeded in spite of a conflicting borrow", op.h, op.f),
                );
            }
            Out::Ok(v, ix)
        }
        Ok(Err(e)) => {
            s.end(Res::Err(e));
            judge_ok(ix);
            Out::Err
        }
        Err(p) => {
            s.end(Res::Panic);
            if conflict {
                fired("conflicting borrow");
                probe("conflicting borrow reported");
            }
            judge_panic(ix, &*p, conflict, unwraps(o, op));
            Out::Panic
        }
    }
}

/// Does this helper of this field turn a builder's error into a panic?
fn unwraps(o: &dyn Obj, op: &Op) -> bool {
    o.meta().fields.get(op.f as usize).is_some_and(|fm| {
        fm.unwraps
            & match op.h {
                H::Get => ops::GET,
                H::Reader => ops::READER,
                H::GetMut => ops::GET_MUT,
                _ => 0,
            }
            != 0
    })
}

fn xobj<'a>(slot: Option<&'a SlotC>) -> Option<&'a mut dyn Obj> {
    slot.and_then(|s| unsafe { (*s.h.get()).as_mut() }).and_then(|h| h.mu())
}

async fn field_op(o: &dyn Obj, slot: Option<&SlotC>, op: &Op) {
    let m = o.meta();
    let Some(fm) = m.fields.get(op.f as usize)
    else {
        rs().skipped += 1;
        return;
    };
    let f = op.f;
    let oid = o.oid();
    let bit = match op.h {
        H::Has => ops::HAS,
        H::Get => ops::GET,
        H::Reader => ops::READER,
        H::GetMut => ops::GET_MUT,
        H::Writer => ops::WRITER,
        H::Set => ops::SET,
        H::Clear => ops::CLEAR,
        H::Touch => ops::TOUCH,
        _ => unreachable!(),
    };
    if fm.ops & bit == 0 {
        rs().skipped += 1;
        return;
    }
    let ex = fm.excl & bit != 0;
    let xo: Option<&mut dyn Obj> = if ex {
        match xobj(slot) {
            Some(x) => Some(x),
            None => {
                rs().skipped += 1;
                return;
            }
        }
    }
    else {
        None
    };
    let demand = if fm.k == K::Lazy { FrameKind::Demand } else { FrameKind::NoBuild };
    let cell = fm.cell;
    match op.h {
        H::Has => {
            let conflict = cell && cell_conflict(oid, f, false);
            let asy = fm.a && fm.k == K::Opt;
            elem(
                o,
                op,
                M::Has,
                FrameKind::NoBuild,
                conflict,
                async { Ok(if asy { o.a_has(f).await } else { o.has(f) }) },
                |b| Res::Bool(*b),
            )
            .await;
        }
        H::Set => {
            let conflict = cell && cell_conflict(oid, f, true);
            let id = fresh_id();
            elem(
                o,
                op,
                M::Set(id),
                FrameKind::NoBuild,
                conflict,
                async move {
                    Ok(match xo {
                        Some(x) => x.xset(f, id),
                        None if fm.a => o.a_set(f, id).await,
                        None => o.set(f, id),
                    })
                },
                |old| Res::Old(*old),
            )
            .await;
        }
        H::Clear => {
            let conflict = cell && cell_conflict(oid, f, true);
            elem(
                o,
                op,
                M::Clear,
                FrameKind::NoBuild,
                conflict,
                async move {
                    Ok(match xo {
                        Some(x) => x.xclear(f),
                        None if fm.a => o.a_clear(f).await,
                        None => o.clear(f),
                    })
                },
                |old| Res::Old(*old),
            )
            .await;
        }
        H::Touch => {
            elem(
                o,
                op,
                M::Touch,
                demand,
                false,
                async move {
                    if fm.a {
                        o.a_touch(f).await
                    }
                    else {
                        o.touch(f)
                    }
                    Ok(())
                },
                |_| Res::Unit,
            )
            .await;
        }
        H::Get | H::Reader => {
            let conflict = cell && cell_conflict(oid, f, false);
            let rd = op.h == H::Reader;
            let out = elem(
                o,
                op,
                M::Read,
                demand,
                conflict,
                async {
                    match (rd, fm.a) {
                        (true, true) => o.a_reader(f).await,
                        (true, false) => o.reader(f),
                        (false, true) => o.a_get(f).await,
                        (false, false) => o.get(f),
                    }
                },
                |g| Res::Val(g.peek()),
            )
            .await;
            if let Out::Ok(mut g, _) = out {
                let live = g.live();
                let _hold = (live && fm.lock).then(|| hold_begin(oid, f, HMode::R, fm.a));
                let _cg = (live && cell).then(|| CellG::new(oid, f, false));
                let expect = Some(g.peek());
                let mut held = Held { g: G::R(&mut g), o, f, h: op.h, expect };
                for st in &op.body {
                    step(st, Some(&mut held), None).await;
                }
                peek_check(&mut held);
            }
        }
        H::GetMut | H::Writer => {
            let conflict = cell && cell_conflict(oid, f, true);
            let wr = op.h == H::Writer;
            let lazy_w = wr && fm.k == K::Lazy;
            let out = elem(
                o,
                op,
                if lazy_w { M::WAcq } else { M::Read },
                if wr { FrameKind::NoBuild } else { demand },
                conflict,
                async move {
                    match (xo, wr, fm.a) {
                        (Some(x), _, _) => x.xget_mut(f),
                        (None, true, true) => o.a_writer(f).await,
                        (None, true, false) => o.writer(f),
                        (None, false, true) => o.a_get_mut(f).await,
                        (None, false, false) => o.get_mut(f),
                    }
                },
                |g| if lazy_w { Res::Unit } else { Res::Val(g.peek().unwrap_or(None)) },
            )
            .await;
            if let Out::Ok(mut g, _) = out {
                let _hold = fm.lock.then(|| hold_begin(oid, f, HMode::W, fm.a));
                let _cg = cell.then(|| CellG::new(oid, f, true));
                let expect = g.peek();
                let mut held = Held { g: G::W(&mut g), o, f, h: op.h, expect };
                for st in &op.body {
                    step(st, Some(&mut held), None).await;
                }
                peek_check(&mut held);
            }
        }
        _ => unreachable!(),
    }
}

// --- object-level operations ----------------------------------------------------------------------------------------

/// Tell the model what a freshly made object contains.
pub fn register(o: &dyn Obj, init: impl Fn(usize) -> Option<u32>) {
    let oid = o.oid();
    let m = o.meta();
    let mut r = rs();
    for i in 0..m.fields.len() {
        let v = init(i);
        r.init.insert((oid, i as u8), v);
    }
    r.subj_of.insert(oid, m.name);
}

pub fn default_init(m: &Meta, i: usize) -> Option<u32> {
    m.fields[i].default
}

/// Non-building look at every field of a private object: what does it hold now?
async fn inspect(o: &dyn Obj, slot: &SlotC) -> Vec<Option<Option<u32>>> {
    let m = o.meta();
    let mut out = vec![];
    for (i, fm) in m.fields.iter().enumerate() {
        let mut known = None;
        if fm.ops & ops::HAS != 0 {
            let at = rs().hist.len();
            field_op(o, Some(slot), &Op::new(H::Has, OWNER, i as u8)).await;
            let b = match rs().hist.get(at).and_then(|s| s.res.clone()) {
                Some(Res::Bool(b)) => b,
                _ => {
                    out.push(None);
                    continue;
                }
            };
            if !b {
                known = Some(None);
            }
        }
        if known.is_none() && (fm.k != K::Lazy || fm.ops & ops::HAS != 0) {
            let h = if fm.ops & ops::GET != 0 {
                Some(H::Get)
            }
            else if fm.ops & ops::READER != 0 {
                Some(H::Reader)
            }
            else {
                None
            };
            if let Some(h) = h {
                let at = rs().hist.len();
                field_op(o, Some(slot), &Op::new(h, OWNER, i as u8)).await;
                if let Some(Res::Val(v)) = rs().hist.get(at).and_then(|s| s.res.clone()) {
                    known = Some(v.map(|r| r.id));
                }
            }
        }
        out.push(known);
    }
    out
}

fn note_snaps(ix: usize, oid: u32, vals: &[Option<Option<u32>>], h: H) {
    let mut r = rs();
    let base = r.hist[ix].clone();
    for (i, v) in vals.iter().enumerate() {
        if let Some(v) = v {
            let mut s = base.clone();
            s.oid = oid;
            s.f = i as u8;
            s.m = M::Snap(*v);
            s.h = h;
            s.res = Some(Res::Unit);
            s.atts = vec![];
            r.hist.push(s);
        }
    }
}

struct FailingSink {
    buf:  Vec<u8>,
    left: Option<usize>,
}
impl std::io::Write for FailingSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        simrt::yield_point(kind::CALLBACK);
        match &mut self.left {
            None => {
                self.buf.extend_from_slice(b);
                Ok(b.len())
            }
            Some(0) => {
                Err(std::io::Error::new(std::io::ErrorKind::Other, "sink full"))
            }
            Some(n) => {
                // short write up to the limit
                let k = b.len().min(*n);
                *n -= k;
                self.buf.extend_from_slice(&b[..k]);
                Ok(k)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn resolve(op: u8) -> Option<Rc<SlotC>> {
    let w = world()?;
    if op >= LOCAL {
        let l = w.local.borrow();
        let n = (op - LOCAL) as usize;
        if n < l.len() {
            Some(l[l.len() - 1 - n].clone())
        }
        else {
            None
        }
    }
    else {
        w.shared.get(op as usize).cloned()
    }
}

/// Stands for an explicit null in hand-made input.
pub const NULL_ID: u32 = u32::MAX;

/// Input written field by field: kept as it was, left out, null or given a fresh value; in any order, with keys nobody
/// knows or, rarely, a key given twice.
fn mixed_input(m: &Meta, js: &serde_json::Value, x: usize) -> (String, Option<Vec<Option<u32>>>) {
    let mut r = simrt::rng::Rng::new(x as u64 ^ 0x6d69_7865_64);
    let mut parts: Vec<(String, String)> = vec![];
    for (i, fm) in m.fields.iter().enumerate() {
        let old = js.get(fm.key);
        match r.below(10) {
            0..=2 => (),
            3 | 4 if fm.k != K::Eager || r.chance(1, 6) => {
                fired("null in input");
                parts.push((fm.key.to_string(), "null".into()))
            }
            3..=6 => parts.push((fm.key.to_string(), (7_600_000 + i as u32).to_string())),
            _ => match old {
                Some(v) => parts.push((fm.key.to_string(), v.to_string())),
                None => (),
            },
        }
    }
    if r.chance(1, 3) {
        parts.reverse();
        fired("input out of order");
    }
    if r.chance(1, 5) {
        let at = r.below(parts.len() + 1);
        parts.insert(at, ("stranger".into(), "[1,{\"a\":null}]".into()));
        fired("unknown key in input");
    }
    let mut ob = serde_json::Map::new();
    for (k, v) in &parts {
        ob.insert(k.clone(), serde_json::from_str(v).unwrap_or_default());
    }
    let mut want = expect_de(m, &serde_json::Value::Object(ob));
    if r.chance(1, 12) {
        if let Some(fm) = m.fields.iter().find(|f| f.de && parts.iter().any(|p| p.0 == f.key)) {
            parts.push((fm.key.to_string(), "7600099".into()));
            fired("key given twice");
            want = None;
        }
    }
    let body: Vec<String> = parts.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    (format!("{{{}}}", body.join(",")), want)
}

/// Value ids used by hand-made input.
pub fn json_of(m: &Meta, vals: &[Option<u32>]) -> String {
    let mut s = String::from("{");
    for (i, fm) in m.fields.iter().enumerate() {
        if let (Some(v), true) = (vals.get(i).copied().flatten(), fm.de) {
            if s.len() > 1 {
                s.push(',');
            }
            if v == NULL_ID {
                s.push_str(&format!("\"{}\":null", fm.key));
            }
            else {
                s.push_str(&format!("\"{}\":{}", fm.key, v));
            }
        }
    }
    s.push('}');
    s
}

/// What deserialising this JSON object must produce, or an error (None).
pub fn expect_de(m: &Meta, js: &serde_json::Value) -> Option<Vec<Option<u32>>> {
    let ob = js.as_object()?;
    if m.deny && ob.keys().any(|k| !m.fields.iter().any(|f| f.de && f.key == k)) {
        return None;
    }
    let mut out = vec![];
    for fm in m.fields {
        if !fm.de {
            out.push(fm.default);
            continue;
        }
        let optional = fm.k != K::Eager;
        match ob.get(fm.key) {
            Some(serde_json::Value::Null) if optional => out.push(None),
            Some(v) => out.push(Some(v.as_u64()? as u32)),
            None => {
                if let Some(d) = fm.de_dflt {
                    out.push(Some(d))
                }
                else if m.de_struct_default {
                    out.push(fm.default)
                }
                else if optional {
                    out.push(None)
                }
                else {
                    return None;
                }
            }
        }
    }
    Some(out)
}

fn push_local(h: Handle) -> Rc<SlotC> {
    let s = SlotC::new(h);
    if let Some(w) = world() {
        let mut l = w.local.borrow_mut();
        if l.len() >= 6 {
            // forget the oldest
            let old = l.remove(0);
            drop(l);
            drop(old);
            w.local.borrow_mut().push(s.clone());
        }
        else {
            l.push(s.clone());
        }
    }
    s
}

pub fn do_make(m: &'static Meta, mk: &Make) -> Option<Handle> {
    let f = m.make?;
    if m.fields.iter().all(|f| !f.b_set) {
        return None;
    }
    POST.with(|p| *p.borrow_mut() = mk.post);
    POST_RUNS.with(|p| p.set(0));
    let ids: RefCell<Vec<(u8, u32)>> = RefCell::new(vec![]);
    let sub = sub_begin(0, 0, H::Make, M::ObjClone, FrameKind::NoBuild, &[]);
    let ix = sub.ix;
    let into_panic = mk.into_panic;
    let r = catch_unwind(AssertUnwindSafe(|| {
        f(mk, &mut |fld| {
            let id = fresh_id();
            ids.borrow_mut().push((fld, id));
            if into_panic == Some(fld) {
                set_fault(Some((Cb::Into, 0)));
            }
            id
        })
    }));
    set_fault(None);
    sub.end(Res::Unit);
    POST.with(|p| *p.borrow_mut() = None);
    let ids = ids.into_inner();
    let post_runs = POST_RUNS.with(|p| p.get());
    let given_at = |list: &[u8], from: usize| -> Vec<Option<u32>> {
        let mut v = vec![None; m.fields.len()];
        for (k, fl) in list.iter().enumerate() {
            if let Some((ff, id)) = ids.get(from + k) {
                debug_assert_eq!(ff, fl);
                v[*fl as usize] = Some(*id);
            }
        }
        v
    };
    let missing = |v: &[Option<u32>]| -> Vec<&'static str> {
        m.fields
            .iter()
            .enumerate()
            .filter(|(i, f)| f.b_req && v[*i].is_none())
            .map(|(_, f)| f.name)
            .collect()
    };
    match r {
        Err(p) => {
            let fired_into = !rs().hist[ix].fired.is_empty();
            match is_sim(&*p) {
                Some(_) => {
                    if into_panic.is_none() && !(mk.post == Some(BOut::Panic) && m.post) && !fired_into {
                        viol(Class::Make, "struct builder passed on a panic from nowhere");
                    }
                    if mk.post == Some(BOut::Panic) && m.post && post_runs > 1 {
                        viol(Class::Make, format!("post-build hook ran {post_runs} times for one construction"));
                    }
                }
                None => viol(Class::Make, format!("struct builder panicked: {}", simrt::panic_text(&*p))),
            }
            None
        }
        Ok(made) => {
            if into_panic.is_some() && !rs().hist[ix].fired.is_empty() {
                viol(Class::Make, "struct builder swallowed a panic of a conversion");
            }
            // replay the calls against the model
            let mut have = given_at(&mk.first, 0);
            let mut handle = None;
            let first_failed = made.calls.first().is_some_and(|c| c.is_err());
            let mut posts = 0;
            for (n, c) in made.calls.into_iter().enumerate() {
                if n == 1 && first_failed && !mk.second.is_empty() {
                    // second round of values was added after the first failure
                    let more = given_at(&mk.second, mk.first.len());
                    for (i, v) in more.iter().enumerate() {
                        if v.is_some() {
                            have[i] = *v;
                        }
                    }
                }
                let miss = missing(&have);
                match (c, miss.is_empty()) {
                    (Ok(h), true) => {
                        posts += 1;
                        if m.post && m.post_fallible && mk.post == Some(BOut::Err) {
                            viol(Class::Make, "build() succeeded although the post-build hook failed");
                        }
                        let hv = have.clone();
                        register(h.o(), |i| hv[i].or_else(|| default_init(m, i)));
                        // values are gone from the builder now
                        have = vec![None; m.fields.len()];
                        if handle.is_none() {
                            handle = Some(h);
                        }
                        else {
                            drop(h);
                        }
                    }
                    (Ok(h), false) => {
                        viol(Class::Make, format!("build() succeeded without required value(s) {miss:?}"));
                        drop(h);
                    }
                    (Err(e), true) => {
                        if e == "post:77" && m.post_fallible && mk.post == Some(BOut::Err) {
                            posts += 1;
                            have = vec![None; m.fields.len()];
                            }
                        else {
                            viol(Class::Make, format!("build() failed although nothing is missing: {e}"));
                        }
                    }
                    (Err(e), false) => {
                        probe("build() reported a missing field");
                        if !miss.iter().any(|f| e == format!("missing:{f}")) {
                            viol(Class::Make, format!("build() failed with {e}, but what is missing is {miss:?}"));
                        }
                    }
                }
            }
            if m.post && post_runs != posts {
                viol(Class::Make, format!("post-build hook ran {post_runs} times for {posts} construction(s)"));
            }
            handle
        }
    }
}

/// Marks debug output that ended early.
pub const CUT_SHORT: char = '\u{1}';

struct SmallSink {
    text: String,
    room: usize,
    full: bool,
}

impl std::fmt::Write for SmallSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.full || self.text.len() + s.len() > self.room {
            self.full = true;
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

async fn dbg_op(o: &dyn Obj, op: &Op) {
    if !o.meta().dbg {
        return;
    }
    let held = held_cells(o.oid());
    // plain, pretty, or into a sink that gives up
    let alt = op.aux % 4 >= 2;
    let room = if op.aux % 4 == 3 { (op.aux / 4 % 400) as usize } else { usize::MAX };
    let go = async {
        let mut sink = SmallSink { text: String::new(), room, full: false };
        let r = o.dbg(&mut sink, alt);
        if r.is_err() != sink.full {
            viol(Class::Debug, format!("formatting returned {r:?}, the output {}", if sink.full { "failed" } else { "did not fail" }));
        }
        if sink.full {
            fired("output error while formatting");
            sink.text.insert(0, CUT_SHORT);
        }
        Ok(sink.text)
    };
    let out = elem(o, op, M::ObjDbg, FrameKind::NoBuild, false, go, |_| Res::Unit).await;
    if let Out::Ok(t, ix) = out {
        if !held.is_empty() {
            probe("formatted an object while a guard on it was alive");
        }
        rs().hist[ix].note = t;
    }
}

/// Number of builder attempts so far (to assert that construction builds nothing is the frame's job).
async fn object_op(op: &Op, slot: Rc<SlotC>) {
    let Some(h) = slot.handle()
    else {
        rs().skipped += 1;
        return;
    };
    let o = h.o();
    let m = o.meta();
    let oid = o.oid();
    match op.h {
        H::Clone => {
            if !m.clone {
                return;
            }
            let out = elem(o, op, M::ObjClone, FrameKind::NoBuild, false, async { Ok(o.dup()) }, |_| Res::Unit).await;
            if let Out::Ok(h2, ix) = out {
                let o2oid = h2.o().oid();
                if h2.o().parent() != oid || o2oid == oid {
                    viol(Class::Clone, "clone does not stem from the cloned object");
                }
                // provisional: unknown content, then look
                let s2 = push_local(h2);
                let Some(h2) = s2.handle()
                else {
                    return;
                };
                rs().subj_of.insert(o2oid, m.name);
                let seen = inspect(h2.o(), &s2).await;
                {
                    let mut r = rs();
                    for (i, v) in seen.iter().enumerate() {
                        if let Some(v) = v {
                            r.init.insert((o2oid, i as u8), *v);
                        }
                    }
                }
                note_snaps(ix, oid, &seen, H::Clone);
                probe("clone inspected");
            }
        }
        H::Eq => {
            if !m.eq {
                return;
            }
            let Some(s2) = resolve(op.aux as u8)
            else {
                rs().skipped += 1;
                return;
            };
            let Some(_u2) = Use::shared(&s2)
            else {
                rs().skipped += 1;
                return;
            };
            let Some(h2) = s2.handle()
            else {
                return;
            };
            let o2 = h2.o();
            let other = o2.oid();
            let at = rs().hist.len();
            let out = elem(
                o,
                op,
                M::ObjEq,
                FrameKind::NoBuild,
                false,
                async {
                    rs().hist[at].other = other;
                    Ok(o.eq(o2))
                },
                |b| Res::Bool(*b),
            )
            .await;
            if let Out::Ok(b, _) = out {
                probe(if b { "comparison: equal" } else { "comparison: different" });
            }
        }
        H::Dbg => dbg_op(o, op).await,
        H::Ser => {
            if !m.ser {
                return;
            }
            let left = if op.aux > 0 { Some(op.aux as usize - 1) } else { None };
            let mut sink = FailingSink { buf: vec![], left };
            let first_att = rs().atts.len();
            FIELD_SER.with(|t| *t.borrow_mut() = m.fields.iter().map(|f| f.ser).collect());
            let out = {
                let sk = &mut sink;
                elem(
                    o,
                    op,
                    M::ObjSer,
                    FrameKind::Ser,
                    false,
                    async move { Ok(o.ser(sk)) },
                    |_| Res::Unit,
                )
                .await
            };
            if let Out::Ok(r, ix) = out {
                match r {
                    Err(_) => {
                        if left.is_none() {
                            viol(Class::Ser, format!("serialising object {oid} failed: {}", r.unwrap_err()));
                        }
                        else {
                            fired("sink error during serialisation");
                        }
                    }
                    Ok(()) => {
                        let text = String::from_utf8_lossy(&sink.buf).into_owned();
                        check_ser(o, ix, first_att, &text);
                        if let Some(w) = world() {
                            *w.text.borrow_mut() = Some((oid, text));
                        }
                    }
                }
            }
        }
        H::Myself => {
            if !m.rc {
                return;
            }
            rs().upgrading += 1;
            let r = catch_unwind(AssertUnwindSafe(|| o.myself()));
            rs().upgrading -= 1;
            match r {
                Ok(Some(h2)) => {
                    if h2.o().oid() != oid {
                        viol(Class::Rc, format!("object {oid} found object {} as itself", h2.o().oid()));
                    }
                    // keep it for a while as another strong handle
                    let s = push_local(h2);
                    for st in &op.body {
                        step(st, None, None).await;
                    }
                    drop(s);
                }
                Ok(None) => viol(Class::Rc, format!("live object {oid} could not find itself")),
                Err(p) => viol(Class::Rc, format!("asking object {oid} for itself panicked: {}", simrt::panic_text(&*p))),
            }
        }
        H::Weak => {
            if !m.rc {
                return;
            }
            if let Some(w) = world() {
                let wk = o.weak();
                w.weaks.borrow_mut().push((oid, wk));
            }
        }
        H::DropRef | H::DropLocal => unreachable!(),
        _ => unreachable!(),
    }
}

fn check_ser(o: &dyn Obj, ix: usize, first_att: usize, text: &str) {
    let m = o.meta();
    let oid = o.oid();
    let js: serde_json::Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => {
            viol(Class::Ser, format!("serialising object {oid} gave unreadable output: {e}: {text}"));
            return;
        }
    };
    let Some(ob) = js.as_object()
    else {
        viol(Class::Ser, format!("serialising object {oid} gave no map: {text}"));
        return;
    };
    let want: Vec<&str> = m.fields.iter().filter(|f| f.ser).map(|f| f.key).collect();
    for k in ob.keys() {
        if !want.contains(&k.as_str()) {
            viol(Class::Ser, format!("field {k} must not be serialised: {text}"));
        }
    }
    let mut snaps = vec![];
    for (i, fm) in m.fields.iter().enumerate() {
        if !fm.ser {
            snaps.push(None);
            continue;
        }
        let v = match ob.get(fm.key) {
            None => {
                viol(Class::Ser, format!("field {} missing from the output: {text}", fm.key));
                snaps.push(None);
                continue;
            }
            Some(serde_json::Value::Null) => None,
            Some(x) => match x.as_u64() {
                Some(n) => Some(n as u32),
                None => {
                    viol(Class::Ser, format!("field {} is {x} in the output", fm.key));
                    snaps.push(None);
                    continue;
                }
            },
        };
        // builder runs on the private copy during this call (builders may demand fields of the copy they run on)
        let runs: Vec<AttOut> = {
            let r = rs();
            r.atts[first_att..]
                .iter()
                .filter(|a| {
                    a.tid == tid()
                        && a.f == i as u8
                        && a.oid != oid
                        && r.oids.get(&a.oid).is_some_and(|x| x.parent == oid)
                })
                .map(|a| a.out.clone())
                .collect()
        };
        // failed runs leave the field unset, so it may be asked again; a successful one settles it
        let (last, before) = match runs.split_last() {
            None => {
                if fm.k == K::Lazy && v.is_none() {
                    viol(Class::Ser, format!("unset lazy field {} was emitted without asking its builder", fm.key));
                }
                snaps.push(Some(v));
                continue;
            }
            Some(x) => x,
        };
        if before.iter().any(|a| matches!(a, AttOut::Ok(_))) {
            viol(Class::Ser, format!("field {}: built again after a successful run in one serialisation", fm.key));
        }
        match last {
            AttOut::Ok(id) => {
                probe("serialisation built an unset lazy field");
                if v != Some(*id) {
                    viol(Class::Ser, format!("field {}: builder gave {id}, output says {v:?}", fm.key));
                }
            }
            AttOut::Err(_) => {
                if v.is_some() {
                    viol(Class::Ser, format!("field {}: builder failed, output says {v:?}", fm.key));
                }
            }
            _ => viol(Class::Ser, format!("field {}: serialised although its builder did not finish", fm.key)),
        }
        snaps.push(Some(None));
    }
    note_snaps(ix, oid, &snaps, H::Ser);
}

fn do_de(op: &Op) {
    let Some(w) = world()
    else {
        return;
    };
    let m = w.meta;
    let Some(de) = m.deser
    else {
        return;
    };
    let text = match w.text.borrow().clone() {
        Some((_, t)) => t,
        None if !m.ser || op.aux % 6 == 4 => "{}".to_string(),
        None => {
            rs().skipped += 1;
            return;
        }
    };
    // aux: 0 intact, odd: truncated, even: a field dropped, or its value replaced by something of the wrong type
    let mut text = text;
    let mut expect: Option<Vec<Option<u32>>>;
    if op.aux == 0 {
        let js: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
        expect = expect_de(m, &js);
    }
    else if op.aux % 6 == 4 || op.aux % 2 == 0 && text == "{}" {
        let js: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
        (text, expect) = mixed_input(m, &js, op.aux as usize / 6);
    }
    else if op.aux % 2 == 1 {
        let k = 1 + (op.aux as usize / 2) % (text.len().max(2) - 1);
        text.truncate(k.min(text.len() - 1));
        expect = None;
        fired("truncated input");
    }
    else {
        let mut js: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
        let keys: Vec<String> = js.as_object().map_or(vec![], |o| o.keys().cloned().collect());
        if keys.is_empty() {
            return;
        }
        let x = op.aux as usize / 2;
        let foreign = x % 7 == 0;
        let key = keys[x % keys.len()].clone();
        let ob = js.as_object_mut().unwrap();
        if foreign {
            ob.insert(["zz", "oid", "has_a", ""][x / 7 % 4].into(), serde_json::Value::from(7));
            fired("foreign field in input");
        }
        else if x % 3 == 0 {
            ob.insert(key.clone(), serde_json::Value::String("corrupt".into()));
            fired("corrupted input");
        }
        else {
            ob.remove(&key);
            fired("field missing from input");
        }
        text = js.to_string();
        // a wrong type only matters for fields that are read
        let read = m.fields.iter().any(|f| f.de && f.key == key);
        if !foreign && x % 3 == 0 && !read {
            ob_remove(&mut js, &key);
        }
        expect = expect_de(m, &js);
    }
    let sub = sub_begin(0, 0, H::De, M::ObjClone, FrameKind::NoBuild, &[]);
    let r = catch_unwind(AssertUnwindSafe(|| de(&text)));
    sub.end(Res::Unit);
    match (r, expect.take()) {
        (Err(p), _) => viol(Class::De, format!("deserialising {text} panicked: {}", simrt::panic_text(&*p))),
        (Ok(Ok(h)), Some(v)) => {
            register(h.o(), |i| v[i]);
            probe("deserialised");
            push_local(h);
        }
        (Ok(Ok(h)), None) => {
            viol(Class::De, format!("deserialising bad input {text} gave an object"));
            drop(h);
        }
        (Ok(Err(e)), Some(_)) => viol(Class::De, format!("deserialising {text} failed: {e}")),
        (Ok(Err(_)), None) => probe("bad input refused"),
    }
}

fn ob_remove(js: &mut serde_json::Value, key: &str) {
    if let Some(o) = js.as_object_mut() {
        o.remove(key);
    }
}

// --- operations -----------------------------------------------------------------------------------------------------

pub fn run_op<'a>(op: &'a Op, owner: Option<&'a dyn Obj>) -> Fut<'a, ()> {
    Box::pin(async move {
        simrt::yield_point(kind::USER);
        let is_field = matches!(op.h, H::Has | H::Get | H::Reader | H::GetMut | H::Writer | H::Set | H::Clear | H::Touch);
        if op.obj == OWNER {
            match (owner, op.h) {
                (Some(o), _) if is_field => field_op(o, None, op).await,
                (Some(o), H::Dbg) => dbg_op(o, op).await,
                _ => (),
            }
            return;
        }
        match op.h {
            H::De => return do_de(op),
            H::Make => {
                if let Some(w) = world() {
                    let h = match &op.make {
                        Some(mk) => do_make(w.meta, mk),
                        None => {
                            let sub = sub_begin(0, 0, H::Make, M::ObjClone, FrameKind::NoBuild, &[]);
                            let h = match (w.meta.dflt, op.aux) {
                                (Some(d), 1) => d(),
                                _ => (w.meta.new)(),
                            };
                            sub.end(Res::Unit);
                            register(h.o(), |i| default_init(w.meta, i));
                            Some(h)
                        }
                    };
                    if let Some(h) = h {
                        push_local(h);
                    }
                }
                return;
            }
            H::DropRef => {
                if let Some(s) = resolve(op.obj) {
                    if s.rc && s.drop_handle() {
                        probe("strong handle dropped");
                    }
                }
                return;
            }
            H::DropLocal => {
                if let Some(w) = world() {
                    let x = {
                        let mut l = w.local.borrow_mut();
                        let ok = l.last().is_some_and(|s| s.shared.get() == 0 && !s.excl.get());
                        if ok {
                            l.pop()
                        }
                        else {
                            None
                        }
                    };
                    drop(x);
                }
                return;
            }
            H::Weak if op.aux == 1 => {
                // try to upgrade the newest weak handle
                if let Some(w) = world() {
                    let n = w.weaks.borrow().len();
                    if n == 0 {
                        rs().skipped += 1;
                        return;
                    }
                    let (oid, strong) = {
                        let oid = w.weaks.borrow()[n - 1].0;
                        (oid, rs().strong.get(&oid).copied().unwrap_or(0))
                    };
                    rs().upgrading += 1;
                    let h = (w.weaks.borrow()[n - 1].1)();
                    rs().upgrading -= 1;
                    match h {
                        Some(h) => {
                            probe("weak handle upgraded");
                            if h.o().oid() != oid {
                                viol(Class::Rc, "weak handle yielded another object");
                            }
                            if strong == 0 && rs().oids.get(&oid).map_or(0, |o| o.drops) > 0 {
                                viol(Class::Rc, format!("weak handle yielded the destroyed object {oid}"));
                            }
                            push_local(h);
                        }
                        None => {
                            probe("weak handle dead");
                            if strong > 0 && rs().strong.get(&oid).copied().unwrap_or(0) > 0 {
                                viol(Class::Rc, format!("weak handle of live object {oid} yielded nothing"));
                            }
                        }
                    }
                }
                return;
            }
            H::MsgPut | H::MsgGet => return msg_op(op).await,
            _ => (),
        }
        let Some(slot) = resolve(op.obj)
        else {
            rs().skipped += 1;
            return;
        };
        if is_field {
            let bit_ex = slot.handle().is_some_and(|h| {
                let m = h.o().meta();
                m.fields.get(op.f as usize).is_some_and(|fm| {
                    let bit = match op.h {
                        H::GetMut => ops::GET_MUT,
                        H::Set => ops::SET,
                        H::Clear => ops::CLEAR,
                        _ => 0,
                    };
                    fm.excl & bit != 0
                })
            });
            let u = if bit_ex { Use::excl(&slot) } else { Use::shared(&slot) };
            let Some(_u) = u
            else {
                rs().skipped += 1;
                return;
            };
            let o: &dyn Obj = match slot.handle() {
                Some(h) => h.o(),
                None => return,
            };
            field_op(o, Some(&slot), op).await;
        }
        else {
            let Some(_u) = Use::shared(&slot)
            else {
                rs().skipped += 1;
                return;
            };
            object_op(op, slot.clone()).await;
        }
    })
}

/// Weak-memory observer: the predicate, then (if true) what every client had published.
async fn msg_op(op: &Op) {
    let Some(w) = world()
    else {
        return;
    };
    let Some(slot) = resolve(op.obj)
    else {
        return;
    };
    let Some(_u) = Use::shared(&slot)
    else {
        return;
    };
    let Some(h) = slot.handle()
    else {
        return;
    };
    let o = h.o();
    let at = rs().hist.len();
    field_op(o, Some(&slot), &Op::new(H::Has, op.obj, op.f)).await;
    let b = {
        let r = rs();
        match r.hist.get(at) {
            Some(s) => s.res == Some(Res::Bool(true)) && s.m == M::Has && s.tid == tid(),
            None => false,
        }
    };
    if b && w.sh.weak {
        let mut v = vec![];
        for x in &w.sh.words {
            v.push(x.load(Ordering::Relaxed));
        }
        rs().msgs.push((at, v));
    }
}

/// One client: all its operations, each driven to completion (or cancelled), panics caught at the top.
pub fn run_client(w: &World, opsl: &[Op]) {
    WORLD.with(|x| x.set(w as *const World));
    for op in opsl {
        FRAMES.with(|f| f.borrow_mut().clear());
        set_fault(None);
        let d = simrt::Drive { cancel_at: op.drv.cancel, spurious: op.drv.spurious, late: op.drv.late };
        let r = catch_unwind(AssertUnwindSafe(|| simrt::drive(run_op(op, None), &d)));
        set_fault(None);
        match r {
            Ok(simrt::Driven::Cancelled(_)) => fired("operation dropped before completion"),
            Ok(simrt::Driven::Ready(..)) => {
                if d.spurious > 0 {
                    probe("spurious poll budget given");
                }
            }
            Err(p) => {
                if is_sim(&*p) != Some("panic with guard held") {
                    let t = is_sim(&*p).map(|s| s.to_string()).unwrap_or_else(|| simrt::panic_text(&*p));
                    viol(Class::Panic, format!("a client was hit by a panic: {t}"));
                }
            }
        }
    }
    w.sh.remaining.fetch_sub(1, Ordering::SeqCst);
    w.sh.check();
    WORLD.with(|x| x.set(std::ptr::null()));
}

// --- clients as tasks on shared threads -----------------------------------------------------------------------------

pub fn pooled() -> bool {
    WHO.with(|w| w.get()) != usize::MAX
}

/// Per-client state that lives in thread locals while the client's task is being polled.
struct Tls {
    world:  *const World,
    frames: Vec<Frame>,
    ser:    Vec<bool>,
    fault:  Option<(Cb, u32)>,
    post:   Option<BOut>,
    runs:   u32,
    who:    usize,
}

impl Tls {
    fn swap(&mut self) {
        self.world = WORLD.with(|w| w.replace(self.world));
        FRAMES.with(|f| std::mem::swap(&mut *f.borrow_mut(), &mut self.frames));
        FIELD_SER.with(|f| std::mem::swap(&mut *f.borrow_mut(), &mut self.ser));
        FAULT.with(|f| std::mem::swap(&mut *f.borrow_mut(), &mut self.fault));
        POST.with(|f| std::mem::swap(&mut *f.borrow_mut(), &mut self.post));
        self.runs = POST_RUNS.with(|w| w.replace(self.runs));
        self.who = WHO.with(|w| w.replace(self.who));
    }
}

/// Drives one operation inside a task: dropped at the n-th Pending, polled without need, left alone for some polls.
struct DriveFut<F> {
    fut:      Option<Pin<Box<F>>>,
    pend:     u32,
    cancel:   u32,
    spurious: u32,
    late:     u32,
    away:     u32,
}
impl<F: Future> Future for DriveFut<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let d = unsafe { self.as_mut().get_unchecked_mut() };
        if d.away > 0 {
            d.away -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let Some(f) = d.fut.as_mut()
        else {
            return Poll::Ready(None);
        };
        match f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                d.pend += 1;
                if d.cancel != 0 && d.pend == d.cancel {
                    simrt::yield_point(kind::POLL);
                    d.fut = None;
                    return Poll::Ready(None);
                }
                if d.spurious > 0 {
                    d.spurious -= 1;
                    cx.waker().wake_by_ref();
                }
                d.away = d.late.min(6);
                Poll::Pending
            }
        }
    }
}

async fn client_task(w: World, opsl: Vec<Op>) {
    let w = Box::new(w);
    WORLD.with(|x| x.set(&*w as *const World));
    for op in &opsl {
        FRAMES.with(|f| f.borrow_mut().clear());
        set_fault(None);
        YieldFut(1).await;
        let d = DriveFut {
            fut:      Some(Box::pin(run_op(op, None))),
            pend:     0,
            cancel:   op.drv.cancel,
            spurious: op.drv.spurious,
            late:     op.drv.late,
            away:     0,
        };
        let r = catch(d).await;
        set_fault(None);
        match r {
            Ok(None) => fired("operation dropped before completion"),
            Ok(Some(())) => (),
            Err(p) => {
                if is_sim(&*p) != Some("panic with guard held") {
                    let t = is_sim(&*p).map(|s| s.to_string()).unwrap_or_else(|| simrt::panic_text(&*p));
                    viol(Class::Panic, format!("a client was hit by a panic: {t}"));
                }
            }
        }
    }
    w.sh.remaining.fetch_sub(1, Ordering::SeqCst);
    w.sh.check();
    let sh = w.sh.clone();
    drop(w);
    drop(sh);
    WORLD.with(|x| x.set(std::ptr::null()));
}

#[derive(Clone, Copy, PartialEq)]
enum Ts {
    Idle,
    Ready,
    Polling,
    /// woken while being polled
    Again,
    Done,
}

struct TaskC {
    state: Cell<Ts>,
    fut:   RefCell<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    tls:   RefCell<Tls>,
    last:  Cell<usize>,
}

/// Exactly one simulated thread runs at a time, and no borrow in here lasts across a scheduling point except the one on
/// the future being polled.
pub struct Pool {
    tasks: Vec<TaskC>,
    left:  Cell<usize>,
}
unsafe impl Send for Pool {}
unsafe impl Sync for Pool {}

struct PoolWaker {
    pool: std::sync::Weak<Pool>,
    ix:   usize,
}
impl std::task::Wake for PoolWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(p) = self.pool.upgrade() {
            let t = &p.tasks[self.ix];
            match t.state.get() {
                Ts::Idle => {
                    t.state.set(Ts::Ready);
                    simrt::wake_all(Arc::as_ptr(&p) as usize);
                }
                Ts::Polling => t.state.set(Ts::Again),
                _ => (),
            }
        }
    }
}

impl Pool {
    pub fn new(clients: Vec<(World, Vec<Op>)>) -> Pool {
        let left = Cell::new(clients.len());
        let tasks = clients
            .into_iter()
            .enumerate()
            .map(|(k, (w, o))| TaskC {
                state: Cell::new(Ts::Ready),
                fut:   RefCell::new(Some(Box::pin(client_task(w, o)))),
                tls:   RefCell::new(Tls {
                    world:  std::ptr::null(),
                    frames: vec![],
                    ser:    vec![],
                    fault:  None,
                    post:   None,
                    runs:   0,
                    who:    k,
                }),
                last:  Cell::new(usize::MAX),
            })
            .collect();
        Pool { tasks, left }
    }

    /// One worker thread: polls whatever is ready until every task is done.
    pub fn work(self: &Arc<Pool>) {
        let addr = Arc::as_ptr(self) as usize;
        loop {
            simrt::yield_point(kind::POLL);
            if self.left.get() == 0 {
                return;
            }
            let ready: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].state.get() == Ts::Ready).collect();
            if ready.is_empty() {
                simrt::block_on_addr(addr, "task wake-up", None);
                continue;
            }
            let ix = ready[simrt::choose(ready.len())];
            let t = &self.tasks[ix];
            t.state.set(Ts::Polling);
            let me = simrt::tid().unwrap_or(0);
            if t.last.get() != usize::MAX && t.last.get() != me {
                probe("task moved to another thread");
            }
            t.last.set(me);
            let waker = std::task::Waker::from(Arc::new(PoolWaker { pool: Arc::downgrade(self), ix }));
            let mut cx = Context::from_waker(&waker);
            let mut f = t.fut.borrow_mut().take();
            t.tls.borrow_mut().swap();
            let r = match f.as_mut() {
                Some(x) => x.as_mut().poll(&mut cx),
                None => Poll::Ready(()),
            };
            if r.is_ready() {
                f = None;
            }
            t.tls.borrow_mut().swap();
            *t.fut.borrow_mut() = f;
            if r.is_ready() {
                t.state.set(Ts::Done);
                self.left.set(self.left.get() - 1);
                if self.left.get() == 0 {
                    simrt::wake_all(addr);
                }
            }
            else if t.state.get() == Ts::Again {
                t.state.set(Ts::Ready);
                simrt::wake_all(addr);
            }
            else {
                t.state.set(Ts::Idle);
            }
        }
    }
}
