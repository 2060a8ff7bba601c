//! Simulated atomics. In ordinary runs they are sequentially consistent with a scheduling point before each access;
//! in weak-memory runs each location keeps its modification order and a load may return any store that coherence,
//! happens-before and (for SeqCst) the total order allow - which one is a recorded scheduler decision.
use crate::{clock_le, join, kind, lk, yield_point, Clock, NONE, TID};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug)]
struct Store {
    val:   u64,
    /// (thread, that thread's own clock component) at the store; None for the initial value
    at:    Option<(usize, u32)>,
    /// clock released by this store (release or stronger; RMWs carry on the release sequence)
    rel:   Option<Clock>,
    sc:    bool,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
    stores: Vec<Store>,
    /// per thread: lowest index it may still read (coherence)
    seen:   Vec<usize>,
}

static IDS: AtomicU64 = AtomicU64::new(1);

/// A 64-bit simulated atomic location; the typed atomics below are thin wrappers.
pub struct Loc {
    v:  AtomicU64,
    id: AtomicU64,
}

fn is_acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

impl Loc {
    pub const fn new(v: u64) -> Self {
        Loc { v: AtomicU64::new(v), id: AtomicU64::new(0) }
    }
    fn id(&self) -> u64 {
        let i = self.id.load(Ordering::Relaxed);
        if i != 0 {
            return i;
        }
        let n = IDS.fetch_add(1, Ordering::Relaxed);
        match self.id.compare_exchange(0, n, Ordering::Relaxed, Ordering::Relaxed) {
            Ok(_) => n,
            Err(x) => x,
        }
    }
    pub fn get_mut(&mut self) -> &mut u64 {
        // exclusive access: forget the history
        self.id = AtomicU64::new(0);
        self.v.get_mut()
    }
    pub fn into_inner(self) -> u64 {
        self.v.into_inner()
    }
    fn with<R>(&self, f: impl FnOnce(&mut crate::Inner, usize, u64) -> R) -> Option<R> {
        let me = TID.with(|c| c.get());
        if me == NONE {
            return None;
        }
        yield_point(kind::ATOMIC);
        let id = self.id();
        let mut g = lk();
        let i = g.as_mut().unwrap();
        if !i.weak {
            return None;
        }
        let cur = self.v.load(Ordering::SeqCst);
        let h = i.atoms.entry(id).or_default();
        if h.stores.is_empty() {
            h.stores.push(Store { val: cur, at: None, rel: None, sc: true });
        }
        Some(f(i, me, id))
    }
    pub fn load(&self, o: Ordering) -> u64 {
        let r = self.with(|i, me, id| {
            let vc = i.th[me].vc.clone();
            let h = i.atoms.get(&id).unwrap().clone();
            let last = h.stores.len() - 1;
            let mut lo = h.seen.get(me).copied().unwrap_or(0);
            for (k, s) in h.stores.iter().enumerate() {
                let hb = match s.at {
                    None => true,
                    Some((t, c)) => vc.get(t).copied().unwrap_or(0) >= c,
                };
                if hb || (o == Ordering::SeqCst && s.sc) {
                    lo = lo.max(k);
                }
            }
            let n = last - lo + 1;
            // alternative 0 = the newest store
            let c = i.choose_raw(n, |s| if s.rng.chance(1, 2) { 0 } else { s.rng.below(n) });
            let k = last - c;
            if c > 0 {
                i.stale_reads += 1;
            }
            let hh = i.atoms.get_mut(&id).unwrap();
            if hh.seen.len() <= me {
                hh.seen.resize(me + 1, 0);
            }
            hh.seen[me] = k;
            let s = h.stores[k].clone();
            if is_acq(o) {
                if let Some(rc) = &s.rel {
                    join(&mut i.th[me].vc, rc);
                }
            }
            s.val
        });
        r.unwrap_or_else(|| self.v.load(Ordering::SeqCst))
    }
    pub fn store(&self, val: u64, o: Ordering) {
        self.with(|i, me, id| {
            let vc = i.th[me].vc.clone();
            let h = i.atoms.get_mut(&id).unwrap();
            h.stores.push(Store {
                val,
                at: Some((me, vc[me])),
                rel: is_rel(o).then(|| vc.clone()),
                sc: o == Ordering::SeqCst,
            });
            let k = h.stores.len() - 1;
            if h.seen.len() <= me {
                h.seen.resize(me + 1, 0);
            }
            h.seen[me] = k;
            i.th[me].vc[me] += 1;
        });
        self.v.store(val, Ordering::SeqCst)
    }
    /// Read-modify-write: always acts on the newest store.
    pub fn rmw(&self, f: impl Fn(u64) -> Option<u64>, ok: Ordering, fail: Ordering) -> Result<u64, u64> {
        let mut noted = None;
        let cell = &mut noted;
        let r = self.with(|i, me, id| {
            let s = i.atoms.get(&id).unwrap().stores.last().unwrap().clone();
            let new = f(s.val);
            let o = if new.is_some() { ok } else { fail };
            if is_acq(o) {
                if let Some(rc) = &s.rel {
                    join(&mut i.th[me].vc, rc);
                }
            }
            let vc = i.th[me].vc.clone();
            let h = i.atoms.get_mut(&id).unwrap();
            if h.seen.len() <= me {
                h.seen.resize(me + 1, 0);
            }
            if let Some(n) = new {
                let mut rel = s.rel.clone();
                if is_rel(o) {
                    match rel.as_mut() {
                        Some(r) => join(r, &vc),
                        None => rel = Some(vc.clone()),
                    }
                }
                h.stores.push(Store { val: n, at: Some((me, vc[me])), rel, sc: o == Ordering::SeqCst });
                i.th[me].vc[me] += 1;
                *cell = Some(n);
            }
            let h = i.atoms.get_mut(&id).unwrap();
            h.seen[me] = h.stores.len() - 1;
            match new {
                Some(_) => Ok(s.val),
                None => Err(s.val),
            }
        });
        match r {
            Some(r) => {
                if let Some(n) = noted {
                    self.v.store(n, Ordering::SeqCst);
                }
                r
            }
            None => self.v.try_update(Ordering::SeqCst, Ordering::SeqCst, f),
        }
    }
}

/// Fence approximations are not provided: code using fences is outside what weak-memory runs model.
pub fn happens_before(a: &Clock, b: &Clock) -> bool {
    clock_le(a, b)
}

#[repr(transparent)]
pub struct AtomicBool(Loc);

impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}

impl std::fmt::Debug for AtomicBool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0.v.load(Ordering::SeqCst) != 0).fmt(f)
    }
}

impl From<bool> for AtomicBool {
    fn from(v: bool) -> Self {
        Self::new(v)
    }
}

impl AtomicBool {
    pub const fn new(v: bool) -> Self {
        AtomicBool(Loc::new(v as u64))
    }
    pub fn load(&self, o: Ordering) -> bool {
        self.0.load(o) != 0
    }
    pub fn store(&self, v: bool, o: Ordering) {
        self.0.store(v as u64, o)
    }
    pub fn swap(&self, v: bool, o: Ordering) -> bool {
        let f = if is_acq(o) { Ordering::Acquire } else { Ordering::Relaxed };
        self.0.rmw(|_| Some(v as u64), o, f).unwrap_or_else(|x| x) != 0
    }
    pub fn compare_exchange(&self, cur: bool, new: bool, s: Ordering, f: Ordering) -> Result<bool, bool> {
        self.0
            .rmw(|x| (x == cur as u64).then_some(new as u64), s, f)
            .map(|x| x != 0)
            .map_err(|x| x != 0)
    }
    pub fn compare_exchange_weak(&self, cur: bool, new: bool, s: Ordering, f: Ordering) -> Result<bool, bool> {
        self.compare_exchange(cur, new, s, f)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(|x| Some(x | v as u64), o, Ordering::Relaxed).unwrap_or_else(|x| x) != 0
    }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(|x| Some(x & v as u64), o, Ordering::Relaxed).unwrap_or_else(|x| x) != 0
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(|x| Some(x ^ v as u64), o, Ordering::Relaxed).unwrap_or_else(|x| x) != 0
    }
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(|x| Some(((x & v as u64) == 0) as u64), o, Ordering::Relaxed).unwrap_or_else(|x| x) != 0
    }
    pub fn fetch_update(
        &self,
        s: Ordering,
        f: Ordering,
        mut g: impl FnMut(bool) -> Option<bool>,
    ) -> Result<bool, bool> {
        loop {
            let c = self.load(f);
            let Some(n) = g(c)
            else {
                return Err(c);
            };
            if let Ok(x) = self.compare_exchange(c, n, s, f) {
                return Ok(x);
            }
        }
    }
    pub fn get_mut(&mut self) -> &mut bool {
        // Loc stores 0/1 in a u64; the low byte is a valid bool on little-endian targets
        let p: *mut u64 = self.0.get_mut();
        unsafe { &mut *(p as *mut bool) }
    }
    pub fn into_inner(self) -> bool {
        self.0.into_inner() != 0
    }
}

pub use std::sync::atomic::Ordering as MemOrdering;

/// Simulated word, used by the harness for its own "ordinary memory" in weak-memory scenarios.
pub struct AtomicWord(Loc);

impl AtomicWord {
    pub const fn new(v: u64) -> Self {
        AtomicWord(Loc::new(v))
    }
    pub fn load(&self, o: Ordering) -> u64 {
        self.0.load(o)
    }
    pub fn store(&self, v: u64, o: Ordering) {
        self.0.store(v, o)
    }
}
