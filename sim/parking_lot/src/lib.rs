//! Simulated parking_lot (see Cargo.toml). Blocking rules follow parking_lot 0.12.5's raw_rwlock.rs:
//! a shared lock waits while the writer bit is set (a *recursive* one only if there are no readers), a writer first
//! takes the writer bit (waiting while it or the upgradable bit is set) and then waits for the readers to leave, an
//! upgradable lock counts as a reader, upgrading swaps upgradable+reader for the writer bit and waits for the other
//! readers. Which waiter gets a freed lock is the scheduler's choice.

mod raw;

pub use lock_api;
pub use raw::{RawFairMutex, RawMutex, RawRwLock, RawThreadId};

#[cfg(feature = "send_guard")]
type GuardMarker = lock_api::GuardSend;
#[cfg(not(feature = "send_guard"))]
type GuardMarker = lock_api::GuardNoSend;

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}

pub type FairMutex<T> = lock_api::Mutex<RawFairMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawFairMutex, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawFairMutex, T>;
pub const fn const_fair_mutex<T>(v: T) -> FairMutex<T> {
    FairMutex::const_new(<RawFairMutex as lock_api::RawMutex>::INIT, v)
}

pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

#[cfg(feature = "arc_lock")]
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockUpgradableReadGuard<T> = lock_api::ArcRwLockUpgradableReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;

/// Simulated atomics, used by the guarded hook in the crate under test.
pub mod dst {
    pub use simrt::atomic::AtomicBool;
}

mod cv;
pub use cv::{Condvar, Once, OnceState, WaitTimeoutResult};
