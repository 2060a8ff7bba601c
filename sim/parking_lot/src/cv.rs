use crate::{Mutex, MutexGuard};
use simrt::{block_on_addr, hb_acquire, hb_release, kind, now, wake_all, yield_point};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    gen: AtomicU64,
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { gen: AtomicU64::new(0) }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    /// Notifications wake everybody waiting (a spurious wake-up is always allowed).
    pub fn notify_one(&self) -> bool {
        self.notify_all() > 0
    }
    pub fn notify_all(&self) -> usize {
        self.gen.fetch_add(1, SeqCst);
        hb_release(self.addr());
        wake_all(self.addr());
        yield_point(kind::UNLOCK);
        1
    }
    fn wait_dl<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, deadline: Option<u64>) -> bool {
        let gen = self.gen.load(SeqCst);
        MutexGuard::unlocked(g, || {
            while self.gen.load(SeqCst) == gen {
                if deadline.is_some_and(|d| now() >= d) {
                    return true;
                }
                block_on_addr(self.addr(), "condvar", deadline);
            }
            hb_acquire(self.addr());
            false
        })
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.wait_dl(g, None);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(self.wait_dl(g, Some(now() + (d.as_micros() as u64).max(1))))
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut *g) {
            self.wait(g)
        }
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}

pub struct Once {
    m: Mutex<()>,
    s: AtomicUsize,
}

impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}

impl Once {
    pub const fn new() -> Self {
        Once { m: crate::const_mutex(()), s: AtomicUsize::new(0) }
    }
    pub fn state(&self) -> OnceState {
        match self.s.load(SeqCst) {
            0 => OnceState::New,
            1 => OnceState::InProgress,
            2 => OnceState::Done,
            _ => OnceState::Poisoned,
        }
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        yield_point(kind::ATOMIC);
        if self.s.load(SeqCst) == 2 {
            return;
        }
        let _g = self.m.lock();
        match self.s.load(SeqCst) {
            2 => return,
            3 => panic!("Once poisoned by panic"),
            _ => (),
        }
        struct P<'a>(&'a AtomicUsize);
        impl Drop for P<'_> {
            fn drop(&mut self) {
                if self.0.load(SeqCst) == 1 {
                    self.0.store(3, SeqCst)
                }
            }
        }
        self.s.store(1, SeqCst);
        let p = P(&self.s);
        f();
        self.s.store(2, SeqCst);
        drop(p);
    }
}
