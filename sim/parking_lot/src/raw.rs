use crate::GuardMarker;
use lock_api as la;
use simrt::{block_on_addr, hb_acquire, hb_release, kind, now, wake_all, yield_point};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

const WRITER: usize = 1;
const UPGR: usize = 2;
const ONE: usize = 4;
const READERS: usize = !3;

/// one tick of simulated time per microsecond
fn ticks(d: Duration) -> u64 {
    now() + (d.as_micros() as u64).max(1)
}
fn ticks_until(i: Instant) -> u64 {
    ticks(i.saturating_duration_since(Instant::now()))
}

pub struct RawRwLock {
    s: AtomicUsize,
}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn g(&self) -> usize {
        self.s.load(SeqCst)
    }
    fn set(&self, v: usize) {
        self.s.store(v, SeqCst)
    }
    /// Wait until `f` yields the next state, or the deadline passes.
    fn wait(&self, what: &'static str, deadline: Option<u64>, f: impl Fn(usize) -> Option<usize>) -> bool {
        loop {
            if let Some(n) = f(self.g()) {
                self.set(n);
                return true;
            }
            if let Some(d) = deadline {
                if now() >= d {
                    return false;
                }
            }
            block_on_addr(self.addr(), what, deadline);
        }
    }
    fn shared(&self, recursive: bool, deadline: Option<u64>) -> bool {
        yield_point(kind::LOCK);
        let ok = self.wait("rwlock read", deadline, |s| {
            (s & WRITER == 0 || (recursive && s & READERS != 0)).then_some(s + ONE)
        });
        if ok {
            hb_acquire(self.addr());
        }
        ok
    }
    fn try_shared(&self, recursive: bool) -> bool {
        yield_point(kind::LOCK);
        let s = self.g();
        if s & WRITER != 0 && !(recursive && s & READERS != 0) {
            return false;
        }
        self.set(s + ONE);
        hb_acquire(self.addr());
        true
    }
    fn excl(&self, deadline: Option<u64>) -> bool {
        yield_point(kind::LOCK);
        if !self.wait("rwlock write", deadline, |s| (s & (WRITER | UPGR) == 0).then_some(s | WRITER)) {
            return false;
        }
        self.drain(deadline)
    }
    /// The writer bit is ours: wait for the readers to leave.
    fn drain(&self, deadline: Option<u64>) -> bool {
        if !self.wait("rwlock write (readers leaving)", deadline, |s| (s & READERS == 0).then_some(s)) {
            self.set(self.g() & !WRITER);
            wake_all(self.addr());
            return false;
        }
        hb_acquire(self.addr());
        true
    }
    fn upgr(&self, deadline: Option<u64>) -> bool {
        yield_point(kind::LOCK);
        let ok = self.wait("rwlock upgradable read", deadline, |s| (s & (WRITER | UPGR) == 0).then_some(s + (ONE | UPGR)));
        if ok {
            hb_acquire(self.addr());
        }
        ok
    }
    fn release(&self, n: usize) {
        hb_release(self.addr());
        self.set(n);
        wake_all(self.addr());
        yield_point(kind::UNLOCK);
    }
}

unsafe impl la::RawRwLock for RawRwLock {
    const INIT: Self = RawRwLock { s: AtomicUsize::new(0) };
    type GuardMarker = GuardMarker;
    fn lock_shared(&self) {
        self.shared(false, None);
    }
    fn try_lock_shared(&self) -> bool {
        self.try_shared(false)
    }
    unsafe fn unlock_shared(&self) {
        let s = self.g();
        assert!(s & READERS != 0, "sim: unlock_shared without readers");
        self.release(s - ONE);
    }
    fn lock_exclusive(&self) {
        self.excl(None);
    }
    fn try_lock_exclusive(&self) -> bool {
        yield_point(kind::LOCK);
        if self.g() != 0 {
            return false;
        }
        self.set(WRITER);
        hb_acquire(self.addr());
        true
    }
    unsafe fn unlock_exclusive(&self) {
        let s = self.g();
        assert!(s & WRITER != 0, "sim: unlock_exclusive without writer");
        self.release(s & !WRITER);
    }
    fn is_locked(&self) -> bool {
        self.g() != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.g() & WRITER != 0
    }
}

unsafe impl la::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        la::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        la::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl la::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.release((self.g() & !WRITER) + ONE)
    }
}

unsafe impl la::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.shared(true, None);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.try_shared(true)
    }
}

unsafe impl la::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        self.shared(false, Some(ticks(d)))
    }
    fn try_lock_shared_until(&self, i: Instant) -> bool {
        self.shared(false, Some(ticks_until(i)))
    }
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        self.excl(Some(ticks(d)))
    }
    fn try_lock_exclusive_until(&self, i: Instant) -> bool {
        self.excl(Some(ticks_until(i)))
    }
}

unsafe impl la::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, d: Duration) -> bool {
        self.shared(true, Some(ticks(d)))
    }
    fn try_lock_shared_recursive_until(&self, i: Instant) -> bool {
        self.shared(true, Some(ticks_until(i)))
    }
}

unsafe impl la::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.upgr(None);
    }
    fn try_lock_upgradable(&self) -> bool {
        yield_point(kind::LOCK);
        let s = self.g();
        if s & (WRITER | UPGR) != 0 {
            return false;
        }
        self.set(s + (ONE | UPGR));
        hb_acquire(self.addr());
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.release(self.g() - (ONE | UPGR))
    }
    unsafe fn upgrade(&self) {
        yield_point(kind::LOCK);
        self.set(self.g() - (ONE | UPGR) + WRITER);
        wake_all(self.addr());
        self.drain(None);
    }
    unsafe fn try_upgrade(&self) -> bool {
        yield_point(kind::LOCK);
        let s = self.g();
        if s & READERS != ONE {
            return false;
        }
        self.set(s - (ONE | UPGR) + WRITER);
        hb_acquire(self.addr());
        true
    }
}

unsafe impl la::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        la::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

unsafe impl la::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.release(self.g() - UPGR)
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.release((self.g() & !WRITER) + (ONE | UPGR))
    }
}

unsafe impl la::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, d: Duration) -> bool {
        self.upgr(Some(ticks(d)))
    }
    fn try_lock_upgradable_until(&self, i: Instant) -> bool {
        self.upgr(Some(ticks_until(i)))
    }
    unsafe fn try_upgrade_for(&self, d: Duration) -> bool {
        yield_point(kind::LOCK);
        self.set(self.g() - (ONE | UPGR) + WRITER);
        if self.drain(Some(ticks(d))) {
            true
        }
        else {
            // back to upgradable: nobody can have taken the writer/upgradable bits in between (no yield)
            self.set(self.g() + (ONE | UPGR));
            false
        }
    }
    unsafe fn try_upgrade_until(&self, i: Instant) -> bool {
        self.try_upgrade_for(i.saturating_duration_since(Instant::now()))
    }
}

pub struct RawMutex {
    s: AtomicUsize,
}

impl RawMutex {
    pub(crate) fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn acquire(&self, deadline: Option<u64>) -> bool {
        yield_point(kind::LOCK);
        while self.s.load(SeqCst) != 0 {
            if let Some(d) = deadline {
                if now() >= d {
                    return false;
                }
            }
            block_on_addr(self.addr(), "mutex", deadline);
        }
        self.s.store(1, SeqCst);
        hb_acquire(self.addr());
        true
    }
}

unsafe impl la::RawMutex for RawMutex {
    const INIT: Self = RawMutex { s: AtomicUsize::new(0) };
    type GuardMarker = GuardMarker;
    fn lock(&self) {
        self.acquire(None);
    }
    fn try_lock(&self) -> bool {
        yield_point(kind::LOCK);
        if self.s.load(SeqCst) != 0 {
            return false;
        }
        self.s.store(1, SeqCst);
        hb_acquire(self.addr());
        true
    }
    unsafe fn unlock(&self) {
        hb_release(self.addr());
        self.s.store(0, SeqCst);
        wake_all(self.addr());
        yield_point(kind::UNLOCK);
    }
    fn is_locked(&self) -> bool {
        self.s.load(SeqCst) != 0
    }
}

unsafe impl la::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        la::RawMutex::unlock(self)
    }
}

unsafe impl la::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, d: Duration) -> bool {
        self.acquire(Some(ticks(d)))
    }
    fn try_lock_until(&self, i: Instant) -> bool {
        self.acquire(Some(ticks_until(i)))
    }
}

pub struct RawFairMutex(RawMutex);

unsafe impl la::RawMutex for RawFairMutex {
    const INIT: Self = RawFairMutex(<RawMutex as la::RawMutex>::INIT);
    type GuardMarker = GuardMarker;
    fn lock(&self) {
        self.0.lock()
    }
    fn try_lock(&self) -> bool {
        self.0.try_lock()
    }
    unsafe fn unlock(&self) {
        la::RawMutex::unlock(&self.0)
    }
    fn is_locked(&self) -> bool {
        self.0.is_locked()
    }
}

pub struct RawThreadId;

unsafe impl la::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
