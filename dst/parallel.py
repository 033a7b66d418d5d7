"""Simulated joblib backend.

``thread`` mode: workers are scheduler threads sharing memory with the caller and
preempted at skfolio source lines. ``process`` mode: every task is pickled, run in a
forked process with pristine process-wide state and read-only arrays, and its result
pickled back. The plan decides the order in which queued tasks are taken.
"""

import contextlib
import io
import os
import pickle
import random
import struct
import threading
import time

import cloudpickle
import joblib
import numpy as np
from joblib._parallel_backends import ParallelBackendBase, SequentialBackend
from joblib.externals.loky.process_executor import TerminatedWorkerError

from dst import monitor
from dst.sched import current_scheduler


class SimParallel:
    """One per run: configuration and history of all parallel calls of the run."""

    def __init__(self, mode="thread", n_jobs=2, picks=(), faults=(), nested="seq",
                 readonly=True, batch=1):
        self.mode = mode
        self.n_jobs = n_jobs
        self.picks = list(picks)
        self.pick_pos = 0
        self.faults = {int(f["task"]): f for f in faults}
        self.nested = nested
        self.readonly = readonly
        self.batch = batch
        self.n_tasks = 0
        self.order = []
        self.completed = []
        self.fired = []
        self.max_lines = {}

    def pick(self, n):
        if n <= 1:
            return 0
        if self.pick_pos < len(self.picks):
            v = self.picks[self.pick_pos] % n
            self.pick_pos += 1
            return v
        return 0

    @contextlib.contextmanager
    def active(self, n_jobs="config"):
        """Route every joblib call of this process here, from any thread."""
        global CURRENT
        old, CURRENT = CURRENT, self
        try:
            if n_jobs == "config":
                with joblib.parallel_config(backend="sim", n_jobs=self.n_jobs):
                    yield self
            else:
                yield self
        finally:
            CURRENT = old


CURRENT = SimParallel()


def install():
    """No real worker pool is ever started: all joblib backends are simulated."""

    def make(mode):
        def factory(nesting_level=None, **kw):
            return SimBackend(CURRENT, nesting_level=nesting_level or 0, force=mode)

        return factory

    joblib.parallel.time = _Time()
    joblib.register_parallel_backend("sim", make(None), make_default=True)
    for name, mode in (("loky", None), ("multiprocessing", None), ("threading", "thread")):
        joblib.register_parallel_backend(name, make(mode))


# parallel calls whose results a thread is waiting for, by thread
RETRIEVING = {}


class _Time:
    """joblib polls for results: a polling thread lets the other threads run."""

    def sleep(self, seconds):
        sched = current_scheduler()
        waiting = RETRIEVING.get(threading.get_ident())
        if waiting and waiting[-1].advance():
            return
        if sched is None:
            time.sleep(seconds)
        else:
            sched.sleep(seconds)

    def __getattr__(self, name):
        return getattr(time, name)


class _Task:
    def __init__(self, func, callback, index):
        self.func = func
        self.callback = callback
        self.index = index
        self.state = "queued"
        self.value = None
        self.error = None


class _Handle:
    def __init__(self, backend, task):
        self.backend = backend
        self.task = task

    def get(self, timeout=None):
        return self.backend._finish(self.task)


class SimBackend(ParallelBackendBase):
    supports_sharedmem = True
    uses_threads = True
    supports_retrieve_callback = False
    supports_return_generator = True

    def __init__(self, sim=None, nesting_level=0, force=None, **kw):
        super().__init__(nesting_level=nesting_level)
        self.sim = sim
        self.force = force
        self.queue = []
        self.running = 0
        self.workers = []

    def __reduce__(self):
        # a task that carries its backend into another process runs nested calls
        # sequentially there, like joblib's own process workers
        return (SequentialBackend, ())

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(8 + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        self.parallel = parallel
        self.n_jobs = self.effective_n_jobs(n_jobs)
        self.queue = []
        self.running = 0
        # results in order of completion are handed over as tasks complete
        self.supports_retrieve_callback = not getattr(parallel, "return_ordered", True)
        if require == "sharedmem" or self.force == "thread":
            self.mode = "thread"
        else:
            self.mode = self.sim.mode
        return self.n_jobs

    def compute_batch_size(self):
        return self.sim.batch

    def get_nested_backend(self):
        if self.sim.nested == "sim" and self.nesting_level < 1:
            return SimBackend(self.sim, nesting_level=self.nesting_level + 1, force=self.force), None
        return SequentialBackend(nesting_level=self.nesting_level + 1), None

    def submit(self, func, callback=None):
        t = _Task(func, callback, self.sim.n_tasks)
        self.sim.n_tasks += 1
        self.queue.append(t)
        return _Handle(self, t)

    def abort_everything(self, ensure_ready=True):
        self.queue = []

    def terminate(self):
        self.queue = []

    # -- execution --------------------------------------------------------
    def _take(self):
        t = self.queue.pop(self.sim.pick(len(self.queue)))
        t.state = "running"
        self.sim.order.append(t.index)
        return t

    def _complete(self, t):
        t.state = "done"
        self.sim.completed.append(t.index)
        if t.callback is not None and self.supports_retrieve_callback:
            t.callback(t)
        elif t.callback is not None and t.error is None:
            t.callback(t.value)

    def retrieve_result_callback(self, out):
        if out.error is not None:
            raise out.error
        return out.value

    @contextlib.contextmanager
    def retrieval_context(self):
        waiting = RETRIEVING.setdefault(threading.get_ident(), [])
        if self.supports_retrieve_callback:
            waiting.append(self)
        try:
            yield
        finally:
            if self in waiting:
                waiting.remove(self)

    def advance(self):
        """Complete at least one task, if any is left."""
        sched = current_scheduler()
        if self.mode == "thread" and sched is not None and self.n_jobs > 1:
            before = len(self.sim.completed)
            alive = self._start_workers(sched)
            if not alive:
                return False
            sched.wait_for(
                lambda: len(self.sim.completed) > before or all(w.done for w in alive)
            )
            return True
        if not self.queue:
            return False
        t = self._take()
        self._run_inline(t)
        self._complete(t)
        return True

    def _finish(self, task):
        sched = current_scheduler()
        if self.mode == "thread" and sched is not None and self.n_jobs > 1:
            self._run_threads(sched, task)
        else:
            while task.state != "done":
                t = self._take()
                self._run_inline(t)
                self._complete(t)
        if task.error is not None:
            self.queue = []
            raise task.error
        return task.value

    def _run_inline(self, t):
        fault = self.sim.faults.get(t.index)
        if self.mode == "process":
            _run_in_fork(self.sim, t, fault)
        else:
            _run_local(self.sim, t, fault)

    def _start_workers(self, sched):
        def worker():
            while self.queue:
                t = self._take()
                _run_local(self.sim, t, self.sim.faults.get(t.index))
                self._complete(t)

        alive = [w for w in self.workers if not w.done]
        while len(alive) < self.n_jobs and len(alive) < len(self.queue):
            w = sched.spawn(worker, f"w{len(sched.threads)}")
            self.workers.append(w)
            alive.append(w)
        return alive

    def _run_threads(self, sched, task):
        while task.state != "done":
            ws = self._start_workers(sched)
            sched.wait_for(
                lambda: task.state == "done" or all(w.done for w in ws)
            )


def _run_local(sim, t, fault):
    ctx = monitor.current()
    start = ctx.lines if ctx is not None else 0
    old_at = None
    if fault is not None and ctx is not None:
        if fault["kind"] == "die":
            t.error = TerminatedWorkerError("simulated worker death")
            sim.fired.append([t.index, "die"])
            return
        if fault["kind"] == "exc":
            old_at = ctx.at
            ctx.at = ctx.lines + 1 + int(fault["line"])
            ctx.exc = fault["exc"]
            ctx.fired = None
    try:
        t.value = t.func()
    except BaseException as e:  # noqa: BLE001
        t.error = e
    finally:
        if ctx is not None:
            sim.max_lines[t.index] = ctx.lines - start
            if fault is not None and fault["kind"] == "exc":
                if ctx.fired:
                    sim.fired.append([t.index, f"{fault['exc']} at {ctx.fired}"])
                ctx.at = old_at
                ctx.fired = None
    if fault is not None and fault["kind"] == "late" and t.error is None:
        # the work was done but its result is lost
        t.value = None
        t.error = TerminatedWorkerError("simulated loss of a task result")
        sim.fired.append([t.index, "late"])


# -- process mode ---------------------------------------------------------
def _readonly(buf, dtype, shape, order):
    a = np.frombuffer(buf, dtype=dtype)
    return a.reshape(shape, order=order)


class _Pickler(cloudpickle.CloudPickler):
    def __init__(self, f, readonly):
        super().__init__(f, protocol=5)
        self._ro = readonly

    def reducer_override(self, obj):
        if (
            self._ro
            and type(obj) is np.ndarray
            and not obj.dtype.hasobject
            and obj.dtype.names is None
            and obj.size
        ):
            order = "F" if obj.flags.f_contiguous and not obj.flags.c_contiguous else "C"
            return _readonly, (obj.tobytes(order), obj.dtype, obj.shape, order)
        return super().reducer_override(obj)


def dumps(obj, readonly=False):
    f = io.BytesIO()
    _Pickler(f, readonly).dump(obj)
    return f.getvalue()


def _fresh_process_state(entropy):
    import sklearn

    sklearn.set_config(
        assume_finite=False,
        enable_metadata_routing=False,
        transform_output="default",
    )
    np.random.seed(entropy % (2**32))
    random.seed(entropy)


def _read_all(fd):
    chunks = []
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            return b"".join(chunks)
        chunks.append(b)


def _run_in_fork(sim, t, fault):
    payload = dumps(t.func, readonly=sim.readonly)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _fresh_process_state(7919 * (t.index + 1))
            func = pickle.loads(payload)
            ctx = monitor.LineContext()
            if fault is not None and fault["kind"] == "die":
                if int(fault.get("line", 0)) == 0:
                    os._exit(9)
                ctx.at, ctx.exc = 1 + int(fault["line"]), "interrupt"
            elif fault is not None and fault["kind"] == "exc":
                ctx.at, ctx.exc = 1 + int(fault["line"]), fault["exc"]
            try:
                with monitor.watching(ctx):
                    out = ("ok", func())
            except BaseException as e:  # noqa: BLE001
                if fault is not None and fault["kind"] == "die" and ctx.fired:
                    os._exit(9)
                out = ("exc", e)
            if fault is not None and fault["kind"] == "late":
                os._exit(9)
            data = dumps((out, ctx.lines, ctx.fired))
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data)))
                f.write(data)
        except BaseException as e:  # noqa: BLE001
            try:
                import traceback

                data = dumps((("harness", traceback.format_exc()), 0, None))
                with os.fdopen(w, "wb") as f:
                    f.write(struct.pack("<Q", len(data)))
                    f.write(data)
            except BaseException:  # noqa: BLE001
                code = 3
        os._exit(code)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    os.waitpid(pid, 0)
    if len(data) < 8 or len(data) - 8 != struct.unpack("<Q", data[:8])[0]:
        t.error = TerminatedWorkerError("simulated worker death")
        sim.fired.append([t.index, "die"])
        return
    out, lines, fired = pickle.loads(data[8:])
    sim.max_lines[t.index] = lines
    if fired:
        sim.fired.append([t.index, f"{fault['exc']} at {fired}"])
    if out[0] == "ok":
        t.value = out[1]
    elif out[0] == "harness":
        # typically: the result cannot be serialised
        t.error = RuntimeError("result of a process worker not transferable: " + out[1])
    else:
        t.error = out[1]
