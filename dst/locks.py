"""Locks created by skfolio and by joblib's Parallel are made known to the scheduler.

A preempted holder of a real lock would block the only running thread. joblib holds
its lock while it draws the next tasks (skfolio code) from a generator; skfolio creates
no locks today. All other locks are untouched.
"""

import sys
import threading

from dst import boot

_Lock = threading.Lock
_RLock = threading.RLock


def _sched():
    from dst import sched

    return sched.current_scheduler()


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _Lock()

    def _free_for(self, me):
        return self._count == 0 or (self._reentrant and self._owner == me)

    def _take(self, me):
        with self._real:
            if self._free_for(me):
                self._owner = me
                self._count += 1
                return True
            return False

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while not self._take(me):
            if not blocking:
                return False
            s = _sched()
            if s is None:
                import time

                time.sleep(0.001)
                if timeout is not None and timeout >= 0:
                    return False
            else:
                s.wait_for(lambda: self._free_for(me))
        return True

    def release(self):
        with self._real:
            if self._count == 0:
                raise RuntimeError("release unlocked lock")
            self._count -= 1
            if self._count == 0:
                self._owner = None

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


def _from_skfolio():
    name = sys._getframe(2).f_code.co_filename
    return name.startswith(boot.PKG) or name.endswith("/joblib/parallel.py")


def _make_lock():
    return SimLock() if _from_skfolio() else _Lock()


def _make_rlock(*a, **k):
    return SimRLock() if _from_skfolio() else _RLock(*a, **k)


def install():
    threading.Lock = _make_lock
    threading.RLock = _make_rlock
