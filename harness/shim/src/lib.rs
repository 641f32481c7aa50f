//! Stand-in for `parking_lot` (verification harness only).
//!
//! All public types are the same `lock_api` aliases parking_lot itself uses, over raw locks that never
//! really block:
//! * on an ordinary thread ("sequential mode") an acquisition that would have to wait can never succeed,
//!   because nobody else is running: it panics with [`vsched::WouldBlock`], deterministically;
//! * on a thread managed by [`vsched::run`] every acquisition is a scheduling point, and the scheduler decides
//!   who runs next, detects deadlock, and records what it did.
//!
//! The grant rule is parking_lot's: a writer first claims the writer bit (which shuts out later readers) and
//! then waits for the readers already inside to leave.
pub use ::lock_api;
pub mod vsched;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use vsched::{Kind, Req};

type GuardMarker = lock_api::GuardNoSend;

pub struct RawRwLock {
    readers: AtomicUsize,
    bit: AtomicBool,
    up: AtomicBool,
}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub(crate) fn grantable(&self, k: Kind) -> bool {
        match k {
            Kind::Shared => !self.bit.load(SeqCst),
            Kind::SharedRec => !self.bit.load(SeqCst) || self.readers.load(SeqCst) > 0,
            Kind::Excl => !self.bit.load(SeqCst) && !self.up.load(SeqCst),
            Kind::ExclWait => self.readers.load(SeqCst) == 0,
            Kind::Upgradable => !self.bit.load(SeqCst) && !self.up.load(SeqCst),
            Kind::UpgradeWait => self.readers.load(SeqCst) <= 1,
            Kind::Try | Kind::Yield | Kind::Turn => true,
        }
    }
    fn acquire(&self, k: Kind) {
        vsched::point(Req { kind: k, lock: self });
    }
    fn log(&self, e: &'static str) {
        vsched::log_lock(e, self.addr());
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: Self = RawRwLock {
        readers: AtomicUsize::new(0),
        bit: AtomicBool::new(false),
        up: AtomicBool::new(false),
    };
    type GuardMarker = GuardMarker;
    fn lock_shared(&self) {
        self.acquire(Kind::Shared);
        self.readers.fetch_add(1, SeqCst);
        self.log("R");
    }
    fn try_lock_shared(&self) -> bool {
        self.acquire(Kind::Try);
        if !self.grantable(Kind::Shared) {
            vsched::free_settled();
            return false;
        }
        self.readers.fetch_add(1, SeqCst);
        self.log("R");
        true
    }
    unsafe fn unlock_shared(&self) {
        self.readers.fetch_sub(1, SeqCst);
        self.log("r");
        vsched::released();
    }
    fn lock_exclusive(&self) {
        self.acquire(Kind::Excl);
        self.bit.store(true, SeqCst);
        if !self.grantable(Kind::ExclWait) {
            struct Undo<'a>(&'a RawRwLock);
            impl Drop for Undo<'_> {
                fn drop(&mut self) {
                    self.0.bit.store(false, SeqCst);
                }
            }
            let undo = Undo(self); // if the wait is abandoned (deadlock found) give the bit back
            self.acquire(Kind::ExclWait);
            std::mem::forget(undo);
        }
        self.log("W");
    }
    fn try_lock_exclusive(&self) -> bool {
        self.acquire(Kind::Try);
        if !self.grantable(Kind::Excl) || !self.grantable(Kind::ExclWait) {
            vsched::free_settled();
            return false;
        }
        self.bit.store(true, SeqCst);
        self.log("W");
        true
    }
    unsafe fn unlock_exclusive(&self) {
        self.bit.store(false, SeqCst);
        self.log("w");
        vsched::released();
    }
    fn is_locked(&self) -> bool {
        self.bit.load(SeqCst) || self.readers.load(SeqCst) > 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.bit.load(SeqCst)
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.readers.fetch_add(1, SeqCst);
        self.bit.store(false, SeqCst);
        self.log("D");
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.acquire(Kind::SharedRec);
        self.readers.fetch_add(1, SeqCst);
        self.log("R");
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.acquire(Kind::Try);
        if !self.grantable(Kind::SharedRec) {
            vsched::free_settled();
            return false;
        }
        self.readers.fetch_add(1, SeqCst);
        self.log("R");
        true
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_shared_for(&self, _: Self::Duration) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, _: Self::Instant) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_exclusive_for(&self, _: Self::Duration) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    fn try_lock_exclusive_until(&self, _: Self::Instant) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Self::Duration) -> bool {
        lock_api::RawRwLockRecursive::try_lock_shared_recursive(self)
    }
    fn try_lock_shared_recursive_until(&self, _: Self::Instant) -> bool {
        lock_api::RawRwLockRecursive::try_lock_shared_recursive(self)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.acquire(Kind::Upgradable);
        self.up.store(true, SeqCst);
        self.readers.fetch_add(1, SeqCst);
        self.log("U");
    }
    fn try_lock_upgradable(&self) -> bool {
        self.acquire(Kind::Try);
        if !self.grantable(Kind::Upgradable) {
            vsched::free_settled();
            return false;
        }
        self.up.store(true, SeqCst);
        self.readers.fetch_add(1, SeqCst);
        self.log("U");
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.up.store(false, SeqCst);
        self.readers.fetch_sub(1, SeqCst);
        self.log("u");
        vsched::released();
    }
    unsafe fn upgrade(&self) {
        self.bit.store(true, SeqCst);
        if !self.grantable(Kind::UpgradeWait) {
            self.acquire(Kind::UpgradeWait);
        }
        self.up.store(false, SeqCst);
        self.readers.fetch_sub(1, SeqCst);
        self.log("W");
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.acquire(Kind::Try);
        if !self.grantable(Kind::UpgradeWait) {
            vsched::free_settled();
            return false;
        }
        self.bit.store(true, SeqCst);
        self.up.store(false, SeqCst);
        self.readers.fetch_sub(1, SeqCst);
        self.log("W");
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.up.store(false, SeqCst);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.readers.fetch_add(1, SeqCst);
        self.up.store(true, SeqCst);
        self.bit.store(false, SeqCst);
    }
}

/// A mutex over the same machinery (xecs does not use one today).
pub struct RawMutex(RawRwLock);
unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: Self = RawMutex(<RawRwLock as lock_api::RawRwLock>::INIT);
    type GuardMarker = GuardMarker;
    fn lock(&self) {
        lock_api::RawRwLock::lock_exclusive(&self.0)
    }
    fn try_lock(&self) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(&self.0)
    }
    unsafe fn unlock(&self) {
        lock_api::RawRwLock::unlock_exclusive(&self.0)
    }
    fn is_locked(&self) -> bool {
        lock_api::RawRwLock::is_locked(&self.0)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_for(&self, _: Self::Duration) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
    fn try_lock_until(&self, _: Self::Instant) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
