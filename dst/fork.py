"""Run a function in a forked copy of this (pristine) process."""

import os
import pickle
import select
import signal
import struct
import time
import traceback


class Died(Exception):
    """The forked run ended without a result."""


class Stuck(Exception):
    """The forked run did not end within its wall-clock allowance."""


class RunError(Exception):
    """The harness code inside the forked run raised."""


def call(fn, *args, timeout=120.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = ("ok", fn(*args))
            except BaseException:  # noqa: BLE001
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data)))
                f.write(data)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    stuck = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            stuck = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if not ready:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
        if len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<Q", buf[:8])[0]:
            break
    os.close(r)
    if stuck:
        for kill in (lambda: os.killpg(pid, signal.SIGKILL),
                     lambda: os.kill(pid, signal.SIGKILL)):
            try:
                kill()
            except OSError:
                pass
    os.waitpid(pid, 0)
    if stuck:
        raise Stuck(f"no end within {timeout} s")
    if len(buf) < 8 or len(buf) - 8 < struct.unpack("<Q", buf[:8])[0]:
        raise Died("forked run died")
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "err":
        raise RunError(val)
    return val
