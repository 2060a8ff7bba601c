//! Below the simulation: raw system calls for the simulator's own blocking, and the seam for everybody else's.
//!
//! The standard library blocks through the C symbols `syscall` (futex), `sched_yield`, `nanosleep`/`clock_nanosleep`
//! and reads time through `clock_gettime`. Defining them in the executable puts `std::sync::{Mutex, RwLock, Condvar,
//! Once, OnceLock}`, `std::thread::{park, sleep, yield_now}` and `Instant::now` - and everything built on them - under the
//! scheduler when they are called on a simulated thread; all other threads pass straight through. The simulator itself
//! uses the raw primitives here, which never go through those symbols.

use std::cell::UnsafeCell;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicU32, Ordering::*};

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
compile_error!("the simulation runtime knows the system call convention of x86_64 Linux only");

const SYS_FUTEX: i64 = 202;
const SYS_SCHED_YIELD: i64 = 24;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const EAGAIN: i64 = 11;
const ETIMEDOUT: i64 = 110;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Timespec {
    s:  i64,
    ns: i64,
}

#[inline]
unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    }
    else {
        r
    }
}

fn fwait(w: &AtomicU32, val: u32, ms: Option<u64>) {
    let ts = ms.map(|m| Timespec { s: (m / 1000) as i64, ns: (m % 1000) as i64 * 1_000_000 });
    let p = ts.as_ref().map_or(0, |t| t as *const _ as usize);
    unsafe {
        raw6(SYS_FUTEX, w as *const _ as usize, 128, val as usize, p, 0, 0);
    }
}

fn fwake(w: &AtomicU32, n: i32) {
    unsafe {
        raw6(SYS_FUTEX, w as *const _ as usize, 129, n as usize, 0, 0, 0);
    }
}

/// A mutex on a raw futex.
pub struct Fm<T> {
    w: AtomicU32,
    v: UnsafeCell<T>,
}

unsafe impl<T: Send> Sync for Fm<T> {}
unsafe impl<T: Send> Send for Fm<T> {}

pub struct FmG<'a, T>(&'a Fm<T>);

impl<T> Fm<T> {
    pub const fn new(v: T) -> Fm<T> {
        Fm { w: AtomicU32::new(0), v: UnsafeCell::new(v) }
    }
    #[inline]
    pub fn lock(&self) -> FmG<'_, T> {
        if self.w.compare_exchange(0, 1, Acquire, Relaxed).is_err() {
            while self.w.swap(2, Acquire) != 0 {
                fwait(&self.w, 2, None);
            }
        }
        FmG(self)
    }
}

impl<T> Drop for FmG<'_, T> {
    #[inline]
    fn drop(&mut self) {
        if self.0.w.swap(0, Release) == 2 {
            fwake(&self.0.w, 1);
        }
    }
}

impl<T> Deref for FmG<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}

impl<T> DerefMut for FmG<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}

/// A condition variable on a raw futex.
pub struct Cv(AtomicU32);

impl Cv {
    pub const fn new() -> Cv {
        Cv(AtomicU32::new(0))
    }
    pub fn notify_all(&self) {
        self.0.fetch_add(1, Release);
        fwake(&self.0, i32::MAX);
    }
    pub fn wait_ms<'a, T>(&self, g: FmG<'a, T>, ms: u64) -> FmG<'a, T> {
        let seq = self.0.load(Acquire);
        let m = g.0;
        drop(g);
        fwait(&self.0, seq, Some(ms));
        m.lock()
    }
}

/// One thread parks, anybody unparks.
pub struct Parker(AtomicU32);

impl Parker {
    pub const fn new() -> Parker {
        Parker(AtomicU32::new(0))
    }
    pub fn unpark(&self) {
        self.0.store(1, Release);
        fwake(&self.0, 1);
    }
    pub fn park(&self) {
        while self.0.swap(0, Acquire) == 0 {
            fwait(&self.0, 0, None);
        }
    }
}

pub fn park_forever() -> ! {
    let w = AtomicU32::new(0);
    loop {
        fwait(&w, 0, None);
    }
}

/// Real milliseconds on the monotonic clock.
pub fn real_ms() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe {
        raw6(SYS_CLOCK_GETTIME, 1, &mut t as *mut _ as usize, 0, 0, 0, 0);
    }
    t.s as u64 * 1000 + t.ns as u64 / 1_000_000
}

// --- the seam -------------------------------------------------------------------------------------------------------

/// Simulated clock: an arbitrary epoch plus one microsecond per tick.
const BASE_S: i64 = 1_000_000;
const TICK_NS: i64 = 1000;

fn sim_ts() -> Timespec {
    let ns = crate::now() as i64 * TICK_NS;
    Timespec { s: BASE_S + ns / 1_000_000_000, ns: ns % 1_000_000_000 }
}

fn ticks(t: Timespec) -> u64 {
    ((t.s.saturating_mul(1_000_000_000).saturating_add(t.ns)) / TICK_NS).max(0) as u64
}

unsafe fn sim_futex(uaddr: usize, op: usize, val: usize, ts: usize, a5: usize, v3: usize) -> i64 {
    match op & 127 {
        // WAIT (relative timeout), WAIT_BITSET (absolute)
        cmd @ (0 | 9) => {
            crate::yield_point(crate::kind::LOCK);
            if (*(uaddr as *const AtomicU32)).load(SeqCst) != val as u32 {
                return -EAGAIN;
            }
            let deadline = (ts != 0).then(|| {
                let t = *(ts as *const Timespec);
                if cmd == 0 {
                    crate::now() + ticks(t)
                }
                else {
                    ticks(Timespec { s: t.s - BASE_S, ns: t.ns })
                }
            });
            crate::block_on_addr(uaddr, "std::sync / thread::park", deadline);
            crate::hb_acquire(uaddr);
            match deadline {
                Some(d) if crate::now() >= d => -ETIMEDOUT,
                _ => 0,
            }
        }
        // WAKE, WAKE_BITSET: everybody may wake up, waiters look again
        1 | 10 => {
            crate::hb_release(uaddr);
            crate::wake_all(uaddr);
            crate::yield_point(crate::kind::UNLOCK);
            val as i64
        }
        _ => raw6(SYS_FUTEX, uaddr, op, val, ts, a5, v3),
    }
}

/// # Safety
/// Same as the C library's.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX && crate::in_sim() {
        return ret(sim_futex(a, b, c, d, e, f));
    }
    ret(raw6(n, a, b, c, d, e, f))
}

/// # Safety
/// Same as the C library's.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::in_sim() {
        // Whoever yields waits for somebody else: make sure that time goes on even if it is the only one who can run.
        crate::sleep(1);
        return 0;
    }
    ret(raw6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}

/// # Safety
/// Same as the C library's.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Timespec, rem: *mut Timespec) -> i32 {
    if crate::in_sim() {
        crate::sleep(ticks(*t).max(1));
        return 0;
    }
    ret(raw6(SYS_CLOCK_NANOSLEEP, 1, 0, t as usize, rem as usize, 0, 0)) as i32
}

/// # Safety
/// Same as the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, t: *const Timespec, rem: *mut Timespec) -> i32 {
    if crate::in_sim() {
        let t = *t;
        let n = if flags & 1 != 0 {
            ticks(Timespec { s: t.s - BASE_S, ns: t.ns }).saturating_sub(crate::now())
        }
        else {
            ticks(t)
        };
        crate::sleep(n.max(1));
        return 0;
    }
    // This one returns the error number
    -raw6(SYS_CLOCK_NANOSLEEP, clock as usize, flags as usize, t as usize, rem as usize, 0, 0) as i32
}

/// # Safety
/// Same as the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut Timespec) -> i32 {
    if crate::in_sim() {
        *t = sim_ts();
        return 0;
    }
    ret(raw6(SYS_CLOCK_GETTIME, clock as usize, t as usize, 0, 0, 0, 0)) as i32
}

/// True if the standard library really goes through the seam: one simulated run with a contended std mutex, a parked
/// thread and a look at the clock.
pub fn self_test() -> bool {
    use std::sync::{Arc, Mutex};
    let cfg = crate::SimCfg { seed: 1, strategy: crate::Strategy::RoundRobin, max_steps: 10_000, weak: false, hang_ms: 3000 };
    let mut run = crate::Run::new(&cfg);
    let m = Arc::new(Mutex::new(0u32));
    let clients = (0..3)
        .map(|_| {
            let m = m.clone();
            Box::new(move || {
                for _ in 0..3 {
                    let mut g = m.lock().unwrap();
                    crate::yield_point(crate::kind::USER);
                    *g += 1;
                    drop(g);
                    std::thread::yield_now();
                    std::thread::sleep(std::time::Duration::from_secs(1));
                }
                let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                assert!((BASE_S as u64 + 3..BASE_S as u64 + 60).contains(&t));
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let ok = run.phase(clients, 3000);
    ok && *m.lock().unwrap() == 9 && run.stats().fail.is_none()
}
