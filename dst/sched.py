"""Deterministic scheduler: real threads, exactly one of them running at a time.

The schedule is a list of ``[gap, pick]``: after ``gap`` further yield points the
running thread is replaced by the ``pick``-th runnable thread. When the list is
used up a thread runs until it blocks or ends. Yield points are the executed source
lines of skfolio and the simulated I/O operations.

Entries ``["@", salt, m, most]`` select one in ``m`` source lines: a thread that is
about to execute a selected line is replaced by the next runnable thread, at most
``most`` times per line. Threads that run the same code are so brought to the same
place before one of them goes on. ``["@=", line, most]`` names one such line.
"""

import hashlib
import sys
import threading
import zlib

from dst import monitor


class Deadlock(Exception):
    pass


class Killed(BaseException):
    """Unwinds a simulated thread whose run is over."""


class SimThread:
    def __init__(self, sched, fn, name):
        self.sched = sched
        self.fn = fn
        self.name = name
        self.gate = threading.Semaphore(0)
        self.done = False
        self.waiting = None
        self.result = None
        self.error = None
        self.ctx = monitor.LineContext(scheduler=sched, ident=name)

    def _main(self):
        self.gate.acquire()
        try:
            if not self.sched.over:
                with monitor.watching(self.ctx):
                    self.result = self.fn()
        except BaseException as e:  # noqa: BLE001 - recorded and judged by the check
            self.error = e
        self.done = True
        self.sched._ended(self)

    def runnable(self):
        return not self.done and (self.waiting is None or self.waiting())


class Scheduler:
    def __init__(self, switches=(), max_steps=5_000_000):
        self.switches = [s for s in switches if s[0] not in ("@", "@=")]
        self.select = [s for s in switches if s[0] == "@"]
        self.named = {s[1]: s[2] for s in switches if s[0] == "@="}
        self.sites = {}
        self.hits = {}
        self.pos = 0
        self.threads = []
        self.current = None
        self.steps = 0
        self.left = self.switches[0][0] if self.switches else -1
        self.switched = 0
        self.preempted = 0
        self.over = False
        self.slept = 0
        self.deadlock = None
        self.max_steps = max_steps
        self._end = threading.Semaphore(0)
        self._hash = hashlib.sha1()
        self.trace = []

    # -- set-up -----------------------------------------------------------
    def spawn(self, fn, name):
        t = SimThread(self, fn, name)
        self.threads.append(t)
        real = threading.Thread(target=t._main, name=f"sim-{name}", daemon=True)
        old = threading.stack_size(16 * 1024 * 1024)
        try:
            real.start()
        finally:
            threading.stack_size(old)
        return t

    def run(self, first=0):
        """Run all spawned threads to the end (called from outside)."""
        if not self.threads:
            return
        self.current = self.threads[first % len(self.threads)]
        self.current.gate.release()
        self._end.acquire()
        if self.deadlock:
            raise Deadlock(self.deadlock)

    # -- yield points -----------------------------------------------------
    def _most(self, code, line):
        site = f"{code.co_qualname}:{line - code.co_firstlineno}"
        most = self.named.get(site, 0)
        for _, salt, m, n in self.select:
            if zlib.crc32(f"{salt} {site}".encode()) % m == 0:
                most = max(most, n)
        return [site, most]

    def step(self, code=None, line=0):
        self.steps += 1
        if code is not None and (self.select or self.named):
            s = self.sites.get((code, line))
            if s is None:
                s = self.sites[code, line] = self._most(code, line)
            if s[1] > 0 and len(self.threads) > 1:
                s[1] -= 1
                self.hits[s[0]] = self.hits.get(s[0], 0) + 1
                me = self.current
                others = self._others(me)
                if others:
                    self.preempted += 1
                    to = self._next(me, others)
                    self._note(me.name, to.name)
                    self._hand(me, to)
                return
        if self.left > 0:
            self.left -= 1
            return
        if self.left == 0:
            pick = self.switches[self.pos][1]
            self.pos += 1
            self.left = (
                self.switches[self.pos][0] if self.pos < len(self.switches) else -1
            )
            self._switch(pick)

    def sleep(self, seconds):
        """Simulated time: let the other threads go first."""
        self.steps += 1
        self.slept += 1
        others = self._others(self.current)
        if not others and self.slept > 100_000:
            self._fail(f"{self.current.name} polls and no other thread can run")
        if others:
            # in turn, so that a thread that waits for another one cannot starve it
            me = self.current
            to = self._next(me, others)
            self._note(me.name, to.name)
            self._hand(me, to)

    def _next(self, me, others):
        i = self.threads.index(me)
        return min(others, key=lambda t: (self.threads.index(t) - i) % len(self.threads))

    def _others(self, me):
        return [t for t in self.threads if t is not me and t.runnable()]

    def _note(self, a, b):
        self.switched += 1
        self._hash.update(f"{a}>{b}@{self.steps};".encode())
        if len(self.trace) < 400:
            frame = ""
            self.trace.append([self.steps, a, b, frame])

    def _switch(self, pick):
        me = self.current
        others = self._others(me)
        if not others:
            return
        to = others[pick % len(others)]
        self.preempted += 1
        self._note(me.name, to.name)
        self._hand(me, to)

    def _hand(self, me, to):
        self.current = to
        to.waiting = None
        to.gate.release()
        me.gate.acquire()
        if self.over:
            raise Killed()

    def wait_for(self, cond):
        """Block the running thread until ``cond()`` holds."""
        me = self.current
        while not cond():
            me.waiting = cond
            others = self._others(me)
            if not others:
                self._fail(
                    "no runnable thread: "
                    + ", ".join(t.name for t in self.threads if not t.done)
                )
            pick = 0
            if self.pos < len(self.switches):
                pick = self.switches[self.pos][1]
            to = others[pick % len(others)]
            self._note(me.name, to.name)
            self._hand(me, to)
        me.waiting = None

    def _fail(self, why):
        self.deadlock = why
        self.over = True
        self._end.release()
        raise Killed()

    def _ended(self, t):
        if self.over:
            return
        others = self._others(t)
        if others:
            pick = 0
            if self.pos < len(self.switches):
                pick = self.switches[self.pos][1]
            to = others[pick % len(others)]
            self._note(t.name, to.name)
            self.current = to
            to.waiting = None
            to.gate.release()
        elif any(not x.done for x in self.threads):
            self.deadlock = "blocked: " + ", ".join(
                x.name for x in self.threads if not x.done
            )
            self.over = True
            self._end.release()
        else:
            self.over = True
            self._end.release()

    def info(self):
        return {"steps": self.steps, "switched": self.switched, "preempted": self.preempted, "digest": self.digest(),
                "hits": sorted(self.hits)}

    def digest(self):
        return self._hash.hexdigest()[:16]


def current_scheduler():
    ctx = monitor.current()
    return None if ctx is None else ctx.scheduler


def gen_switches(rng, n=None, horizon=2000):
    """Draw a schedule: a swarm of styles from rare to dense preemption."""
    style = rng.choice(["none", "few", "few", "pct", "burst", "dense", "site", "site"])
    out = []
    if style == "none":
        return out
    if style == "few":
        for _ in range(rng.randint(1, 4)):
            out.append([rng.randrange(1, max(2, horizon)), rng.randrange(6)])
    elif style == "site":
        out.append(["@", rng.randrange(10**6), rng.choice([3, 8, 20, 60, 200]), rng.choice([1, 4, 12, 40])])
        for _ in range(rng.choice([0, 0, 3])):
            out.append([rng.randrange(1, max(2, horizon)), rng.randrange(6)])
    elif style == "pct":
        pts = sorted(rng.randrange(1, 3 * horizon) for _ in range(rng.randint(2, 12)))
        prev = 0
        for q in pts:
            out.append([max(1, q - prev), rng.randrange(6)])
            prev = q
    elif style == "burst":
        out.append([rng.randrange(1, 2 * horizon), rng.randrange(6)])
        for _ in range(rng.randint(5, 60)):
            out.append([rng.randint(1, 8), rng.randrange(6)])
    else:
        mean = rng.choice([2, 7, 30, 150])
        for _ in range(rng.randint(40, 400)):
            out.append([1 + int(rng.expovariate(1.0 / mean)), rng.randrange(6)])
    return out
