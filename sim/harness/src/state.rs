//! Global state of the current run: ledger of live values, object identities, history, monitors. Exactly one simulated
//! thread runs at a time, so the mutexes are never contended; none is held across a scheduling point.
use crate::plan::*;
use crate::val::Rd;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Mutex, MutexGuard};

pub const DEFAULT_ID: u32 = 8_000_000;
pub const DECL_DEFAULT: u32 = 9_000_000;

/// User-visible callbacks a fault can be injected into.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Cb {
    Clone,
    Eq,
    Debug,
    Into,
    Default,
    Ser,
}

/// Result of an elementary operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    /// a value-demanding access (or an optional read) saw this
    Val(Option<Rd>),
    /// displaced value
    Old(Option<Rd>),
    Bool(bool),
    Err(u32),
    Panic,
    Unit,
}

/// Elementary operations on one cell, the alphabet of the reference model.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum M {
    Has,
    /// accessor / reader / mutable accessor acquisition
    Read,
    /// initialisation without looking
    Touch,
    /// setter with this new value
    Set(u32),
    /// store through a mutable guard
    Put(u32),
    Clear,
    /// one field's part of a clone / serialisation / destruction: the state was this
    Snap(Option<u32>),
    /// acquiring a writer guard: no effect
    WAcq,
    /// object-wide operations; not part of any cell history
    ObjClone,
    ObjEq,
    ObjDbg,
    ObjSer,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AttOut {
    Running,
    Ok(u32),
    Err(u32),
    Panic,
    Cancelled,
}

#[derive(Clone, Debug)]
pub struct Att {
    pub oid:   u32,
    pub f:     u8,
    pub sub:   Option<usize>,
    pub tid:   usize,
    pub begin: u64,
    pub end:   u64,
    pub out:   AttOut,
    pub own:   bool,
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub tid:   usize,
    pub oid:   u32,
    pub f:     u8,
    pub m:     M,
    pub h:     H,
    pub inv:   u64,
    pub ret:   u64,
    pub res:   Option<Res>,
    pub atts:  Vec<usize>,
    pub fired: Vec<Cb>,
    /// future dropped / unwound before completing
    pub cut:   bool,
    pub c_inv: simrt::Clock,
    pub c_ret: simrt::Clock,
    pub phase: u8,
    /// text result (debug) or other note
    pub note:  String,
    pub other: u32,
    pub data:  u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HMode {
    R,
    W,
}

#[derive(Clone, Debug)]
pub struct Hold {
    pub tid:   usize,
    pub oid:   u32,
    pub f:     u8,
    pub mode:  HMode,
    pub start: u64,
    pub end:   u64,
    pub async_: bool,
}

#[derive(Clone, Debug, Default)]
pub struct OidInfo {
    pub parent:  u32,
    pub drops:   u32,
    pub subj:    usize,
    pub tracked: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Class {
    /// history of a cell is not explained by the sequential model
    Lin,
    /// two builder runs overlapped
    Overlap,
    /// a builder ran where none may run
    Unexpected,
    /// more than one builder run in one access, or a builder given the wrong object
    Builder,
    /// access conflicting with a live guard, or guard content changed
    Guard,
    Deadlock,
    StepCap,
    Hang,
    /// panic that nothing injected explains, or injected panic not delivered
    Panic,
    /// wrong error
    Error,
    /// value leaked, destroyed twice, copied instead of moved
    Leak,
    /// clone is not a snapshot
    Clone,
    Eq,
    Debug,
    Ser,
    De,
    Make,
    Rc,
    /// predicate wrong under weak memory / visibility
    Vis,
    /// interior-mutability borrow rules
    Borrow,
    /// progress of others while a guard or builder is held
    Isolation,
    /// the process died
    Crash,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: Class,
    pub text:  String,
    /// the field it is about
    pub f:     Option<u8>,
}

#[derive(Default)]
pub struct Rs {
    pub epoch:      u64,
    pub next_inst:  u32,
    pub next_id:    u32,
    pub next_oid:   u32,
    pub live:       BTreeMap<u32, u32>,
    pub oids:       BTreeMap<u32, OidInfo>,
    pub hist:       Vec<Sub>,
    pub atts:       Vec<Att>,
    pub holds:      Vec<Hold>,
    pub viols:      Vec<Viol>,
    pub fired:      BTreeMap<String, u64>,
    pub probes:     BTreeMap<String, u64>,
    pub active:     BTreeMap<(u32, u8), u32>,
    /// original instance stored for each value id by this run's operations
    pub origin:     BTreeMap<u32, u32>,
    pub phase:      u8,
    pub drops:      u64,
    /// initial content of every cell of every object the harness knows
    pub init:       BTreeMap<(u32, u8), Option<u32>>,
    /// RefCell borrows: readers, writers
    pub cells:      BTreeMap<(u32, u8), (u32, u32)>,
    /// strong handles the clients hold, per reference-counted object; upgrades in progress
    pub strong:     BTreeMap<u32, i64>,
    pub upgrading:  u32,
    /// last serialisation output of each client
    /// per-thread message counters (weak-memory runs)
    pub data:       BTreeMap<usize, u64>,
    /// what a weak-memory observer read: (sub, per-thread words)
    pub msgs:       Vec<(usize, Vec<u64>)>,
    pub skipped:    u64,
    pub subj_of:    BTreeMap<u32, &'static str>,
}

static RS: Mutex<Option<Rs>> = Mutex::new(None);
static EP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct RsG(MutexGuard<'static, Option<Rs>>);
impl std::ops::Deref for RsG {
    type Target = Rs;
    fn deref(&self) -> &Rs {
        self.0.as_ref().expect("no run")
    }
}
impl std::ops::DerefMut for RsG {
    fn deref_mut(&mut self) -> &mut Rs {
        self.0.as_mut().expect("no run")
    }
}

pub fn rs() -> RsG {
    RsG(RS.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn reset() {
    let ep = EP.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
    *RS.lock().unwrap_or_else(|e| e.into_inner()) = Some(Rs { epoch: ep, ..Rs::default() });
}

pub fn take() -> Rs {
    RS.lock().unwrap_or_else(|e| e.into_inner()).take().expect("no run")
}

pub fn viol(class: Class, text: impl Into<String>) {
    let mut r = rs();
    if r.viols.len() < 32 {
        let text = text.into();
        r.viols.push(Viol { class, text, f: None });
    }
}

pub fn violf(class: Class, f: u8, text: impl Into<String>) {
    let mut r = rs();
    if r.viols.len() < 32 {
        let text = text.into();
        r.viols.push(Viol { class, text, f: Some(f) });
    }
}

pub fn probe(name: &str) {
    *rs().probes.entry(name.to_string()).or_insert(0) += 1;
}
pub fn fired(name: &str) {
    *rs().fired.entry(name.to_string()).or_insert(0) += 1;
}

pub fn tid() -> usize {
    match WHO.with(|w| w.get()) {
        usize::MAX => simrt::tid().unwrap_or(99),
        n => n,
    }
}

/// A stamp that also works between phases.
pub fn stamp() -> u64 {
    simrt::stamp()
}

// --- values ---------------------------------------------------------------------------------------------------------

pub fn fresh_id() -> u32 {
    let mut r = rs();
    r.next_id += 1;
    r.next_id
}

pub fn fresh_default() -> u32 {
    DEFAULT_ID
}

pub fn ledger_new(id: u32) -> (u32, u64) {
    let mut r = rs();
    r.next_inst += 1;
    let i = r.next_inst;
    r.live.insert(i, id);
    (i, r.epoch)
}

pub fn ledger_drop(epoch: u64, inst: u32, id: u32) {
    let mut g = RS.lock().unwrap_or_else(|e| e.into_inner());
    let Some(r) = g.as_mut()
    else {
        return;
    };
    if r.epoch != epoch {
        return;
    }
    r.drops += 1;
    if r.live.remove(&inst).is_none() && r.viols.len() < 32 {
        r.viols.push(Viol { class: Class::Leak, text: format!("value {id} (instance {inst}) destroyed twice"), f: None });
    }
}

pub fn oid_new(parent: u32) -> (u32, u64) {
    let mut r = rs();
    r.next_oid += 1;
    let n = r.next_oid;
    r.oids.insert(n, OidInfo { parent, ..OidInfo::default() });
    (n, r.epoch)
}

pub fn oid_drop(epoch: u64, num: u32) {
    let mut g = RS.lock().unwrap_or_else(|e| e.into_inner());
    let Some(r) = g.as_mut()
    else {
        return;
    };
    if r.epoch != epoch {
        return;
    }
    let e = r.oids.entry(num).or_default();
    e.drops += 1;
    if e.drops > 1 && r.viols.len() < 32 {
        r.viols.push(Viol { class: Class::Rc, text: format!("object {num} destroyed twice"), f: None });
    }
}

// --- faults ---------------------------------------------------------------------------------------------------------

/// Payload of every injected panic.
pub struct SimPanic {
    pub what: &'static str,
}

pub fn sim_panic(what: &'static str) -> ! {
    fired(what);
    std::panic::panic_any(SimPanic { what })
}

pub struct Frame {
    pub sub:     usize,
    pub oid:     u32,
    pub f:       u8,
    pub kind:    FrameKind,
    pub scripts: VecDeque<Build>,
    pub active:  bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FrameKind {
    /// may run the builder of (oid, f)
    Demand,
    /// may run builders of objects cloned from oid during this frame
    Ser,
    /// may not run any builder
    NoBuild,
}

thread_local! {
    /// the client whose task the current thread is polling
    pub static WHO: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    pub static FRAMES: RefCell<Vec<Frame>> = const { RefCell::new(Vec::new()) };
    /// which fields of the struct being serialised are part of its output
    pub static FIELD_SER: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    pub static FAULT: RefCell<Option<(Cb, u32)>> = const { RefCell::new(None) };
}

pub fn cur_sub() -> Option<usize> {
    FRAMES.with(|f| f.borrow().last().map(|x| x.sub))
}

pub fn set_fault(f: Option<(Cb, u32)>) {
    FAULT.with(|x| *x.borrow_mut() = f)
}
pub fn get_fault() -> Option<(Cb, u32)> {
    FAULT.with(|x| *x.borrow())
}

/// A callback of the given kind is being made: panic if a fault is due.
pub fn callback(cb: Cb) {
    if std::thread::panicking() {
        return;
    }
    let hit = FAULT.with(|x| {
        let mut x = x.borrow_mut();
        match &mut *x {
            Some((c, n)) if *c == cb => {
                if *n == 0 {
                    *x = None;
                    true
                }
                else {
                    *n -= 1;
                    false
                }
            }
            _ => false,
        }
    });
    if hit {
        if let Some(s) = cur_sub() {
            rs().hist[s].fired.push(cb);
        }
        sim_panic(match cb {
            Cb::Clone => "panic in value clone",
            Cb::Eq => "panic in value comparison",
            Cb::Debug => "panic in value debug",
            Cb::Into => "panic in value conversion",
            Cb::Default => "panic in value default",
            Cb::Ser => "panic in value serialisation",
        });
    }
}

// --- attempts (builder runs) ----------------------------------------------------------------------------------------

pub struct AttG {
    ix:    usize,
    epoch: u64,
    done:  bool,
}

/// A builder of field `f` of object `oid` starts.
pub fn att_begin(oid: u32, f: u8, parent: u32) -> (AttG, Option<Build>) {
    let st = stamp();
    let (sub, ok, script, own) = FRAMES.with(|fr| {
        let mut fr = fr.borrow_mut();
        match fr.last_mut() {
            Some(x) if x.kind == FrameKind::Demand && x.oid == oid && x.f == f && !x.active => {
                x.active = true;
                (Some(x.sub), true, x.scripts.pop_front(), true)
            }
            Some(x) if x.kind == FrameKind::Ser && x.oid == parent && parent != 0 => {
                // serialisation works on a private copy, and asks for what it has to emit
                let emitted = FIELD_SER.with(|t| t.borrow().get(f as usize).copied().unwrap_or(false));
                let pos = x.scripts.iter().position(|s| s.field == Some(f));
                let sc = pos.and_then(|p| x.scripts.remove(p));
                (Some(x.sub), emitted, sc, false)
            }
            Some(x) => (Some(x.sub), false, None, false),
            None => (None, false, None, false),
        }
    });
    let mut r = rs();
    let ix = r.atts.len();
    r.atts.push(Att { oid, f, sub, tid: tid(), begin: st, end: u64::MAX, out: AttOut::Running, own });
    if !ok {
        let d = sub.map(|s| format!("{:?} of field {} of object {}", r.hist[s].h, r.hist[s].f, r.hist[s].oid));
        let t = format!("builder of field {f} of object {oid} ran inside {}", d.unwrap_or("no access at all".into()));
        r.viols.push(Viol { class: Class::Unexpected, text: t, f: Some(f) });
    }
    else if own {
        let s = sub.unwrap();
        if !r.hist[s].atts.is_empty() {
            let t = format!("builder of field {f} of object {oid} ran again within one access");
            r.viols.push(Viol { class: Class::Builder, text: t, f: Some(f) });
        }
        r.hist[s].atts.push(ix);
    }
    let n = r.active.entry((oid, f)).or_insert(0);
    *n += 1;
    if *n > 1 {
        let t = format!("two runs of the builder of field {f} of object {oid} overlap");
        r.viols.push(Viol { class: Class::Overlap, text: t, f: Some(f) });
    }
    let epoch = r.epoch;
    (AttG { ix, epoch, done: false }, script)
}

impl AttG {
    pub fn finish(mut self, out: AttOut) {
        self.end(out)
    }
    fn end(&mut self, out: AttOut) {
        if self.done {
            return;
        }
        self.done = true;
        let st = stamp();
        {
            let mut r = rs();
            if r.epoch != self.epoch {
                return;
            }
            let (oid, f) = {
                let a = &mut r.atts[self.ix];
                a.end = st;
                a.out = out;
                (a.oid, a.f)
            };
            if let Some(n) = r.active.get_mut(&(oid, f)) {
                *n = n.saturating_sub(1);
            }
        }
        FRAMES.with(|fr| {
            if let Some(x) = fr.borrow_mut().last_mut() {
                x.active = false;
            }
        });
    }
}
impl Drop for AttG {
    fn drop(&mut self) {
        if !self.done {
            let p = std::thread::panicking();
            self.end(if p { AttOut::Panic } else { AttOut::Cancelled });
        }
    }
}

// --- elementary operations ------------------------------------------------------------------------------------------

pub struct SubG {
    pub ix: usize,
    epoch:  u64,
    done:   bool,
}

pub fn sub_begin(oid: u32, f: u8, h: H, m: M, kind: FrameKind, scripts: &[Build]) -> SubG {
    simrt::fingerprint(((h as u64) << 32) | ((oid as u64) << 8) | f as u64);
    let c = simrt::my_clock();
    let st = stamp();
    let mut r = rs();
    let ix = r.hist.len();
    let phase = r.phase;
    let data = r.data.get(&tid()).copied().unwrap_or(0);
    r.hist.push(Sub {
        tid: tid(),
        oid,
        f,
        m,
        h,
        inv: st,
        ret: u64::MAX,
        res: None,
        atts: vec![],
        fired: vec![],
        cut: false,
        c_inv: c,
        c_ret: vec![],
        phase,
        note: String::new(),
        other: 0,
        data,
    });
    let epoch = r.epoch;
    drop(r);
    FRAMES.with(|fr| {
        fr.borrow_mut().push(Frame { sub: ix, oid, f, kind, scripts: scripts.iter().cloned().collect(), active: false })
    });
    SubG { ix, epoch, done: false }
}

impl SubG {
    fn pop(&mut self) {
        self.done = true;
        FRAMES.with(|fr| {
            let mut fr = fr.borrow_mut();
            // unwinding may already have dropped inner frames out of order; ours is at or above ix
            while let Some(x) = fr.pop() {
                if x.sub == self.ix {
                    break;
                }
            }
        });
    }
    pub fn end(mut self, res: Res) -> usize {
        self.pop();
        let c = simrt::my_clock();
        let st = stamp();
        let mut r = rs();
        if r.epoch == self.epoch {
            let s = &mut r.hist[self.ix];
            s.ret = st;
            s.c_ret = c;
            s.res = Some(res);
        }
        self.ix
    }
}
impl Drop for SubG {
    fn drop(&mut self) {
        if !self.done {
            self.pop();
            let c = simrt::my_clock();
            let st = stamp();
            let mut r = rs();
            if r.epoch == self.epoch {
                let s = &mut r.hist[self.ix];
                s.ret = st;
                s.c_ret = c;
                s.cut = true;
            }
        }
    }
}

pub struct HoldG {
    ix:    usize,
    epoch: u64,
}
/// Cells of this object that somebody holds a guard on right now.
pub fn held_cells(oid: u32) -> Vec<u8> {
    rs().holds.iter().filter(|h| h.oid == oid && h.end == u64::MAX).map(|h| h.f).collect()
}

pub fn hold_begin(oid: u32, f: u8, mode: HMode, async_: bool) -> HoldG {
    let st = stamp();
    let mut r = rs();
    let ix = r.holds.len();
    r.holds.push(Hold { tid: tid(), oid, f, mode, start: st, end: u64::MAX, async_ });
    HoldG { ix, epoch: r.epoch }
}
impl Drop for HoldG {
    fn drop(&mut self) {
        let st = stamp();
        let mut r = rs();
        if r.epoch == self.epoch {
            r.holds[self.ix].end = st;
        }
    }
}
