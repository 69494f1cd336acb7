"""Deterministic threads: real threads of which exactly one runs at a time; a list of slices decides which one and for how long.

A step is a source line (or call) of the code under test, or a storage operation.  `slices` = [[thread, steps], ...] is used in turn, round and round,
until all threads have finished; slices of finished threads are skipped.  Nothing else switches threads, so the list is the whole schedule."""
import os
import sys
import threading
import zlib

from .core import SimHang, Violation

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = None          # the scheduler at work
PACKAGE = "gerber"


class Killed(BaseException):
    """The thread is stopped here (the caller gave it up)."""


class SimLock(object):
    """A lock of the code under test: waiting for it gives the baton away."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            s = _current
            if s is None or me not in s.idents:
                raise Violation("deadlock", "a lock which is never released")
            s.blocked(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _factory(real, reentrant):
    def lock():
        f = sys._getframe(1)
        if f.f_globals.get("__name__", "").split(".")[0] == PACKAGE:
            return SimLock(reentrant)
        return real()
    return lock


def install():
    """Before the code under test is imported."""
    threading.Lock = _factory(_real_lock, False)
    threading.RLock = _factory(_real_rlock, True)


class Scheduler(object):
    def __init__(self, slices, root, kill=None, limit=4000000, sites=None):
        self.slices = slices
        self.at = sites                  # [m, r]: also switch before every source line of class r out of m
        self.root = root + os.sep
        self.kill = kill                 # [thread, step]
        self.limit = limit
        self.log = []                    # (thread, steps actually run)
        self.steps = []
        self.total = 0
        self.switches = 0
        self.idents = set()
        self.sites = set()
        self.error = None
        self.on_kill = lambda: None

    # -------------------------------------------------------------- inside the threads
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        self._step(frame)
        last = [None]

        def local(frame, event, arg):
            # (a line which loops on itself counts once: the interpreter does not report its rounds reliably)
            if event == "line" and frame.f_lineno != last[0]:
                last[0] = frame.f_lineno
                self._step(frame)
            return local
        return local

    def _step(self, frame=None):
        k = self.me
        self.steps[k] += 1
        self.total += 1
        if self.kill and self.kill[0] == k and self.steps[k] >= self.kill[1] and not self.killed:
            self.killed = True
            self.on_kill()
            raise Killed()
        if self.total > self.limit:
            self.error = SimHang("no end after %d steps" % self.total)
            self.killed = True
            raise Killed()
        self.left -= 1
        if self.left > 0 and self.at and frame is not None and self.pos < 4000:
            code = frame.f_code
            if zlib.crc32(("%s:%d" % (code.co_name, frame.f_lineno - code.co_firstlineno)).encode()) % self.at[0] == self.at[1]:
                self.left = 0
        if self.left <= 0:
            if frame is not None and len(self.sites) < 3000:
                self.sites.add((frame.f_code.co_name, frame.f_lineno))
            self._switch(k)

    def _switch(self, k):
        n = self._next()
        if n is None or n == k:
            return
        self.switches += 1
        self.me = n
        self.gates[n].release()
        self.gates[k].acquire()

    def _next(self):
        """Take the next slice of a thread that can go on."""
        self._wake()
        for _ in range(len(self.slices) + 1):
            t, n = self.slices[self.pos % len(self.slices)]
            self.pos += 1
            t %= self.n
            if t not in self.done and self.waits.get(t) is None:
                self.left = max(1, n)
                self.log.append((t, n))
                return t
        for t in range(self.n):
            # nobody named in the slices: the first one that can go on, to its end
            if t not in self.done and self.waits.get(t) is None:
                self.left = 1 << 60
                return t
        return None

    def blocked(self, lock):
        k = self.me
        self.waits[k] = lock
        n = self._next()
        if n is None:
            self.waits.pop(k, None)
            raise Violation("deadlock", "every thread waits for a lock")
        if n != k:
            self.me = n
            self.gates[n].release()
            self.gates[k].acquire()
        self.waits.pop(k, None)

    def _wake(self):
        for t, lock in list(self.waits.items()):
            if lock.owner is None:
                self.waits.pop(t)

    def hook(self, kind):
        """A storage operation is a step, too."""
        if threading.get_ident() in self.idents:
            self._step()

    def _body(self, k, f):
        self.gates[k].acquire()
        self.idents.add(threading.get_ident())
        sys.settrace(self._trace)
        try:
            f()
        except Killed:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = e
        finally:
            sys.settrace(None)
            self.done.add(k)
            n = self._next()
            if n is None:
                rest = [t for t in range(self.n) if t not in self.done]
                if rest:
                    # they wait for a lock which the end of this thread left locked
                    self.error = self.error or Violation("deadlock", "threads %r wait for a lock for ever" % rest)
                self.over.release()
            else:
                self.me = n
                self.gates[n].release()

    # -------------------------------------------------------------- the caller's side
    def run(self, functions):
        global _current
        self.n = len(functions)
        self.steps = [0] * self.n
        self.done = set()
        self.waits = {}
        self.pos = 0
        self.killed = False
        self.gates = [_real_lock() for _ in functions]
        for g in self.gates:
            g.acquire()
        self.over = _real_lock()
        self.over.acquire()
        _current = self
        ts = [threading.Thread(target=self._body, args=(k, f)) for k, f in enumerate(functions)]
        for t in ts:
            t.daemon = True
            t.start()
        try:
            n = self._next()
            self.me = n
            self.gates[n].release()
            # (the alarm of the run limit must be able to interrupt the waiting)
            while not self.over.acquire(timeout=0.5):
                pass
        finally:
            _current = None
        if self.error is not None:
            raise self.error
        for t in ts:
            t.join(5)
