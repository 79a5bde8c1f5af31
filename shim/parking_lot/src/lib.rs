//! Stand-in for parking_lot 0.10 in the race-detecting builds.
//!
//! * Everything is plain Rust atomics, so ThreadSanitizer and Miri see every edge (the real
//!   library parks threads with raw futex calls neither of them follows).
//! * The edges are exactly the ones mutual exclusion promises: lock words are updated with
//!   relaxed operations, and separate words carry writer -> everyone and reader -> writer edges.
//!   Two read-lock holders are never ordered with each other, so a write made under a read
//!   lock is reported even if the two critical sections did not overlap in time.
//! * The blocking rules are the real ones: a waiting writer keeps new readers out, recursive
//!   reads pass it, an upgradable holder excludes writers and other upgradable holders.
//! * Lock operations yield or stall at random (see `shim`), to reach rare interleavings.
use lock_api::{GuardNoSend, RawMutex as _};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub use lock_api;

/// Controls and counters for the harness.
pub mod shim {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU64, Ordering::*};

    static PERIOD: AtomicU64 = AtomicU64::new(0);
    static SEED: AtomicU64 = AtomicU64::new(1);
    pub static SHARED: AtomicU64 = AtomicU64::new(0);
    pub static EXCLUSIVE: AtomicU64 = AtomicU64::new(0);
    pub static BLOCKED: AtomicU64 = AtomicU64::new(0);
    pub static DELAYS: AtomicU64 = AtomicU64::new(0);

    thread_local!(static STATE: Cell<u64> = Cell::new(0));

    /// about one lock operation in `period` is delayed (0: none)
    pub fn set(period: u64, seed: u64) {
        SEED.store(seed | 1, Relaxed);
        PERIOD.store(period, Relaxed);
    }

    /// (shared acquisitions, exclusive acquisitions, acquisitions that had to wait, delays)
    pub fn stats() -> (u64, u64, u64, u64) {
        (SHARED.load(Relaxed), EXCLUSIVE.load(Relaxed), BLOCKED.load(Relaxed), DELAYS.load(Relaxed))
    }

    pub fn delay() {
        let period = PERIOD.load(Relaxed);
        if period == 0 {
            return;
        }
        let _ = STATE.try_with(|s| {
            let mut x = s.get();
            if x == 0 {
                x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed) | 1;
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
            if x % period == 0 {
                DELAYS.fetch_add(1, Relaxed);
                match (x >> 40) % 8 {
                    0 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros((x >> 48) % 300)),
                    1 | 2 => {
                        for _ in 0..(x >> 48) % 2000 {
                            std::hint::spin_loop();
                        }
                    }
                    _ => std::thread::yield_now(),
                }
            }
        });
    }
}

fn wait(mut ready: impl FnMut() -> bool) {
    if ready() {
        return;
    }
    shim::BLOCKED.fetch_add(1, Relaxed);
    let mut n = 0u32;
    loop {
        if ready() {
            return;
        }
        n += 1;
        if n < 200 || cfg!(miri) {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(30));
        }
    }
}

fn wait_until(deadline: Instant, mut ready: impl FnMut() -> bool) -> bool {
    loop {
        if ready() {
            return true;
        }
        if Instant::now() >= deadline {
            return false;
        }
        std::thread::yield_now();
    }
}

// ------------------------------------------------------------------------------------ mutex
pub struct RawMutex {
    word: AtomicU32,
    edge: AtomicU32,
}

unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex { word: AtomicU32::new(0), edge: AtomicU32::new(0) };
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        shim::delay();
        wait(|| self.try_lock());
    }
    fn try_lock(&self) -> bool {
        let ok = self.word.compare_exchange(0, 1, Relaxed, Relaxed).is_ok();
        if ok {
            self.edge.fetch_add(0, Acquire);
            shim::EXCLUSIVE.fetch_add(1, Relaxed);
        }
        ok
    }
    fn unlock(&self) {
        self.edge.fetch_add(1, Release);
        self.word.store(0, Relaxed);
        shim::delay();
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    fn unlock_fair(&self) {
        self.unlock()
    }
}

unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, d: Duration) -> bool {
        wait_until(Instant::now() + d, || self.try_lock())
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        wait_until(t, || self.try_lock())
    }
}

// ------------------------------------------------------------------------------------ rwlock
const W: usize = 1; // a writer holds the lock or has announced itself
const U: usize = 2; // an upgradable holder
const R: usize = 4; // one reader

pub struct RawRwLock {
    word: AtomicUsize,
    from_writers: AtomicU32,
    from_readers: AtomicU32,
}

impl RawRwLock {
    fn after_writers(&self) {
        self.from_writers.fetch_add(0, Acquire);
    }
    fn after_all(&self) {
        self.from_writers.fetch_add(0, Acquire);
        self.from_readers.fetch_add(0, Acquire);
    }
    fn try_shared(&self, recursive: bool) -> bool {
        let mut s = self.word.load(Relaxed);
        loop {
            if s & W != 0 && !(recursive && s >= R) {
                return false;
            }
            match self.word.compare_exchange_weak(s, s + R, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(x) => s = x,
            }
        }
        self.after_writers();
        shim::SHARED.fetch_add(1, Relaxed);
        true
    }
    fn claim(&self) -> bool {
        let mut s = self.word.load(Relaxed);
        loop {
            if s & (W | U) != 0 {
                return false;
            }
            match self.word.compare_exchange_weak(s, s | W, Relaxed, Relaxed) {
                Ok(_) => return true,
                Err(x) => s = x,
            }
        }
    }
    fn drained(&self) -> bool {
        self.word.load(Relaxed) < R
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock { word: AtomicUsize::new(0), from_writers: AtomicU32::new(0), from_readers: AtomicU32::new(0) };
    type GuardMarker = GuardNoSend;
    fn lock_shared(&self) {
        shim::delay();
        wait(|| self.try_shared(false));
        shim::delay();
    }
    fn try_lock_shared(&self) -> bool {
        self.try_shared(false)
    }
    fn unlock_shared(&self) {
        shim::delay();
        self.from_readers.fetch_add(1, Release);
        self.word.fetch_sub(R, Relaxed);
    }
    fn lock_exclusive(&self) {
        shim::delay();
        wait(|| self.claim());
        wait(|| self.drained());
        self.after_all();
        shim::EXCLUSIVE.fetch_add(1, Relaxed);
        shim::delay();
    }
    fn try_lock_exclusive(&self) -> bool {
        let ok = self.word.compare_exchange(0, W, Relaxed, Relaxed).is_ok();
        if ok {
            self.after_all();
            shim::EXCLUSIVE.fetch_add(1, Relaxed);
        }
        ok
    }
    fn unlock_exclusive(&self) {
        shim::delay();
        self.from_writers.fetch_add(1, Release);
        self.word.fetch_sub(W, Relaxed);
        shim::delay();
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    fn downgrade(&self) {
        self.from_writers.fetch_add(1, Release);
        self.word.fetch_add(R - W, Relaxed);
        shim::delay();
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        shim::delay();
        wait(|| self.try_shared(true));
        shim::delay();
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.try_shared(true)
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        wait_until(Instant::now() + d, || self.try_shared(false))
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        wait_until(t, || self.try_shared(false))
    }
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        wait_until(Instant::now() + d, || lock_api::RawRwLock::try_lock_exclusive(self))
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        wait_until(t, || lock_api::RawRwLock::try_lock_exclusive(self))
    }
}

unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, d: Duration) -> bool {
        wait_until(Instant::now() + d, || self.try_shared(true))
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        wait_until(t, || self.try_shared(true))
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        shim::delay();
        wait(|| lock_api::RawRwLockUpgrade::try_lock_upgradable(self));
    }
    fn try_lock_upgradable(&self) -> bool {
        let mut s = self.word.load(Relaxed);
        loop {
            if s & (W | U) != 0 {
                return false;
            }
            match self.word.compare_exchange_weak(s, s | U, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(x) => s = x,
            }
        }
        self.after_writers();
        true
    }
    fn unlock_upgradable(&self) {
        self.from_writers.fetch_add(1, Release);
        self.from_readers.fetch_add(1, Release);
        self.word.fetch_sub(U, Relaxed);
    }
    fn upgrade(&self) {
        shim::delay();
        self.word.fetch_sub(U - W, Relaxed);
        wait(|| self.drained());
        self.after_all();
        shim::EXCLUSIVE.fetch_add(1, Relaxed);
    }
    fn try_upgrade(&self) -> bool {
        let ok = self.word.compare_exchange(U, W, Relaxed, Relaxed).is_ok();
        if ok {
            self.after_all();
            shim::EXCLUSIVE.fetch_add(1, Relaxed);
        }
        ok
    }
}

unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    fn downgrade_upgradable(&self) {
        self.from_writers.fetch_add(1, Release);
        self.word.fetch_add(R - U, Relaxed);
    }
    fn downgrade_to_upgradable(&self) {
        self.from_writers.fetch_add(1, Release);
        self.word.fetch_add(U - W, Relaxed);
    }
}

unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, d: Duration) -> bool {
        wait_until(Instant::now() + d, || lock_api::RawRwLockUpgrade::try_lock_upgradable(self))
    }
    fn try_lock_upgradable_until(&self, t: Instant) -> bool {
        wait_until(t, || lock_api::RawRwLockUpgrade::try_lock_upgradable(self))
    }
    fn try_upgrade_for(&self, d: Duration) -> bool {
        wait_until(Instant::now() + d, || lock_api::RawRwLockUpgrade::try_upgrade(self))
    }
    fn try_upgrade_until(&self, t: Instant) -> bool {
        wait_until(t, || lock_api::RawRwLockUpgrade::try_upgrade(self))
    }
}

// ------------------------------------------------------------------------------------ the rest
pub struct RawThreadId;

unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const u8 as usize).unwrap())
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(x: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, x)
}

pub const fn const_fair_mutex<T>(x: T) -> FairMutex<T> {
    FairMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, x)
}

pub const fn const_reentrant_mutex<T>(x: T) -> ReentrantMutex<T> {
    ReentrantMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, RawThreadId, x)
}

pub const fn const_rwlock<T>(x: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, x)
}

/// Condition variable by counting notifications.
pub struct Condvar {
    epoch: AtomicU32,
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);

impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { epoch: AtomicU32::new(0) }
    }
    pub fn notify_one(&self) -> bool {
        self.epoch.fetch_add(1, Relaxed);
        true
    }
    pub fn notify_all(&self) -> usize {
        self.epoch.fetch_add(1, Relaxed);
        1
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let e = self.epoch.load(Relaxed);
        MutexGuard::unlocked(guard, || wait(|| self.epoch.load(Relaxed) != e));
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        let e = self.epoch.load(Relaxed);
        WaitTimeoutResult(!MutexGuard::unlocked(guard, || wait_until(t, || self.epoch.load(Relaxed) != e)))
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        let e = self.epoch.load(Relaxed);
        WaitTimeoutResult(!MutexGuard::unlocked(guard, || wait_until(Instant::now() + d, || self.epoch.load(Relaxed) != e)))
    }
}

impl Default for Condvar {
    fn default() -> Condvar {
        Condvar::new()
    }
}

/// One-time initialisation.
pub struct Once(std::sync::Once);

impl Once {
    pub const fn new() -> Once {
        Once(std::sync::Once::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.call_once(f)
    }
}
