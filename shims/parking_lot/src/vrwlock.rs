//! Instrumented raw lock: real `RawRwLock` with scheduling points around it.

use crate::raw_rwlock::RawRwLock as Real;
use lock_api::{
    RawRwLock as _, RawRwLockDowngrade as _, RawRwLockFair as _, RawRwLockRecursive as _, RawRwLockRecursiveTimed as _,
    RawRwLockTimed as _, RawRwLockUpgrade as _, RawRwLockUpgradeDowngrade as _, RawRwLockUpgradeFair as _,
    RawRwLockUpgradeTimed as _,
};
use std::time::{Duration, Instant};
use vsched::{Mode, Rel};

/// Instrumented raw reader-writer lock
pub struct RawRwLock {
    inner: Real,
}

impl RawRwLock {
    #[inline]
    fn a(&self) -> usize {
        self as *const Self as usize
    }
}

#[inline]
fn ctl() -> bool {
    vsched::controlled()
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock { inner: Real::INIT };
    type GuardMarker = crate::GuardMarker;

    fn lock_shared(&self) {
        if ctl() {
            vsched::acquire(self.a(), Mode::Shared);
        }
        else {
            vsched::perturb();
            if vsched::solo() {
                if !self.inner.try_lock_shared() {
                    vsched::stuck();
                }
                return;
            }
        }
        self.inner.lock_shared()
    }

    fn try_lock_shared(&self) -> bool {
        if ctl() {
            if !vsched::try_acquire(self.a(), Mode::Shared) {
                return false;
            }
            if !self.inner.try_lock_shared() {
                vsched::release(self.a(), Rel::Shared);
                return false;
            }
            true
        }
        else {
            self.inner.try_lock_shared()
        }
    }

    unsafe fn unlock_shared(&self) {
        self.inner.unlock_shared();
        if ctl() {
            vsched::release(self.a(), Rel::Shared);
        }
        else {
            vsched::perturb();
        }
    }

    fn lock_exclusive(&self) {
        if ctl() {
            vsched::acquire(self.a(), Mode::Excl);
        }
        else {
            vsched::perturb();
            if vsched::solo() {
                if !self.inner.try_lock_exclusive() {
                    vsched::stuck();
                }
                return;
            }
        }
        self.inner.lock_exclusive()
    }

    fn try_lock_exclusive(&self) -> bool {
        if ctl() {
            if !vsched::try_acquire(self.a(), Mode::Excl) {
                return false;
            }
            if !self.inner.try_lock_exclusive() {
                vsched::release(self.a(), Rel::Excl);
                return false;
            }
            true
        }
        else {
            self.inner.try_lock_exclusive()
        }
    }

    unsafe fn unlock_exclusive(&self) {
        self.inner.unlock_exclusive();
        if ctl() {
            vsched::release(self.a(), Rel::Excl);
        }
        else {
            vsched::perturb();
        }
    }

    fn is_locked(&self) -> bool {
        self.inner.is_locked()
    }

    fn is_locked_exclusive(&self) -> bool {
        self.inner.is_locked_exclusive()
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.inner.unlock_shared_fair();
        if ctl() {
            vsched::release(self.a(), Rel::Shared);
        }
    }

    unsafe fn unlock_exclusive_fair(&self) {
        self.inner.unlock_exclusive_fair();
        if ctl() {
            vsched::release(self.a(), Rel::Excl);
        }
    }

    unsafe fn bump_shared(&self) {
        lock_api::RawRwLock::unlock_shared(self);
        lock_api::RawRwLock::lock_shared(self);
    }

    unsafe fn bump_exclusive(&self) {
        lock_api::RawRwLock::unlock_exclusive(self);
        lock_api::RawRwLock::lock_exclusive(self);
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.inner.downgrade();
        if ctl() {
            vsched::release(self.a(), Rel::ExclToShared);
        }
        else {
            vsched::perturb();
        }
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;

    fn try_lock_shared_for(&self, timeout: Duration) -> bool {
        if ctl() {
            return lock_api::RawRwLock::try_lock_shared(self);
        }
        self.inner.try_lock_shared_for(timeout)
    }

    fn try_lock_shared_until(&self, timeout: Instant) -> bool {
        if ctl() {
            return lock_api::RawRwLock::try_lock_shared(self);
        }
        self.inner.try_lock_shared_until(timeout)
    }

    fn try_lock_exclusive_for(&self, timeout: Duration) -> bool {
        if ctl() {
            return lock_api::RawRwLock::try_lock_exclusive(self);
        }
        self.inner.try_lock_exclusive_for(timeout)
    }

    fn try_lock_exclusive_until(&self, timeout: Instant) -> bool {
        if ctl() {
            return lock_api::RawRwLock::try_lock_exclusive(self);
        }
        self.inner.try_lock_exclusive_until(timeout)
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        if ctl() {
            vsched::acquire(self.a(), Mode::SharedRec);
        }
        else {
            vsched::perturb();
            if vsched::solo() {
                if !self.inner.try_lock_shared_recursive() {
                    vsched::stuck();
                }
                return;
            }
        }
        self.inner.lock_shared_recursive()
    }

    fn try_lock_shared_recursive(&self) -> bool {
        if ctl() {
            if !vsched::try_acquire(self.a(), Mode::SharedRec) {
                return false;
            }
            if !self.inner.try_lock_shared_recursive() {
                vsched::release(self.a(), Rel::Shared);
                return false;
            }
            true
        }
        else {
            self.inner.try_lock_shared_recursive()
        }
    }
}

unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, timeout: Duration) -> bool {
        if ctl() {
            return lock_api::RawRwLockRecursive::try_lock_shared_recursive(self);
        }
        self.inner.try_lock_shared_recursive_for(timeout)
    }

    fn try_lock_shared_recursive_until(&self, timeout: Instant) -> bool {
        if ctl() {
            return lock_api::RawRwLockRecursive::try_lock_shared_recursive(self);
        }
        self.inner.try_lock_shared_recursive_until(timeout)
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        if ctl() {
            vsched::acquire(self.a(), Mode::Upgr);
        }
        else {
            vsched::perturb();
            if vsched::solo() {
                if !self.inner.try_lock_upgradable() {
                    vsched::stuck();
                }
                return;
            }
        }
        self.inner.lock_upgradable()
    }

    fn try_lock_upgradable(&self) -> bool {
        if ctl() {
            if !vsched::try_acquire(self.a(), Mode::Upgr) {
                return false;
            }
            if !self.inner.try_lock_upgradable() {
                vsched::release(self.a(), Rel::Upgr);
                return false;
            }
            true
        }
        else {
            self.inner.try_lock_upgradable()
        }
    }

    unsafe fn unlock_upgradable(&self) {
        self.inner.unlock_upgradable();
        if ctl() {
            vsched::release(self.a(), Rel::Upgr);
        }
        else {
            vsched::perturb();
        }
    }

    unsafe fn upgrade(&self) {
        if ctl() {
            vsched::release(self.a(), Rel::UpgrToClaim);
            vsched::acquire(self.a(), Mode::ExclClaimed);
        }
        else {
            vsched::perturb();
            if vsched::solo() {
                if !self.inner.try_upgrade() {
                    vsched::stuck();
                }
                return;
            }
        }
        self.inner.upgrade()
    }

    unsafe fn try_upgrade(&self) -> bool {
        if ctl() {
            if !vsched::release(self.a(), Rel::TryUpgrade) {
                return false;
            }
            // All readers are known to be gone
            self.inner.upgrade();
            true
        }
        else {
            self.inner.try_upgrade()
        }
    }
}

unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        self.inner.unlock_upgradable_fair();
        if ctl() {
            vsched::release(self.a(), Rel::Upgr);
        }
    }

    unsafe fn bump_upgradable(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self);
        lock_api::RawRwLockUpgrade::lock_upgradable(self);
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.inner.downgrade_upgradable();
        if ctl() {
            vsched::release(self.a(), Rel::UpgrToShared);
        }
        else {
            vsched::perturb();
        }
    }

    unsafe fn downgrade_to_upgradable(&self) {
        self.inner.downgrade_to_upgradable();
        if ctl() {
            vsched::release(self.a(), Rel::ExclToUpgr);
        }
        else {
            vsched::perturb();
        }
    }
}

unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, timeout: Duration) -> bool {
        if ctl() {
            return lock_api::RawRwLockUpgrade::try_lock_upgradable(self);
        }
        self.inner.try_lock_upgradable_for(timeout)
    }

    fn try_lock_upgradable_until(&self, timeout: Instant) -> bool {
        if ctl() {
            return lock_api::RawRwLockUpgrade::try_lock_upgradable(self);
        }
        self.inner.try_lock_upgradable_until(timeout)
    }

    unsafe fn try_upgrade_for(&self, timeout: Duration) -> bool {
        if ctl() {
            return lock_api::RawRwLockUpgrade::try_upgrade(self);
        }
        self.inner.try_upgrade_for(timeout)
    }

    unsafe fn try_upgrade_until(&self, timeout: Instant) -> bool {
        if ctl() {
            return lock_api::RawRwLockUpgrade::try_upgrade(self);
        }
        self.inner.try_upgrade_until(timeout)
    }
}
