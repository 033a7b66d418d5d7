"""Simulated disk and network of dataset clients.

File operations below one scratch directory, made by a client, are routed through
``Client.io``: there the scheduler may switch, the client may be killed (all its later
file operations have no effect, like those of a dead process), or the operation may
fail. Everything below the scratch directory is real files; nothing outside is touched.
The network is an ``urllib`` opener serving the published datasets with faults.
"""

import builtins
import email.message
import errno
import io
import os
import shutil
import tempfile
import threading
import time
import urllib.error
import urllib.request
import urllib.response

from dst import monitor


class SimCrash(BaseException):
    """The simulated process is killed here."""


_tls = threading.local()

ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE}


class SimEscape(BaseException):
    """A client tried to change something outside its scratch directory."""


DESTRUCTIVE = ("remove", "rename", "rmdir", "truncate", "mkdir", "link")


class Client:
    """One simulated process. ``faults``: list of {"at": op index, "kind": ..., "frac": ...}"""

    def __init__(self, name, root, network=None, faults=(), net=(), pid=None):
        self.name = name
        self.root = os.path.realpath(root)
        self.network = network
        self.faults = {int(f["at"]): f for f in faults}
        self.net = {int(f["at"]): f for f in net}
        self.pid = pid
        self.ops = 0
        self.requests = 0
        self.dead = False
        self.fired = []
        self.log = []
        self.fds = set()
        self.escaped = []

    # every file operation passes here; returns the fault to apply within a write
    def io(self, op, path="", data=False):
        if self.dead:
            raise SimCrash()
        i = self.ops
        self.ops += 1
        ctx = monitor.current()
        if ctx is not None and ctx.scheduler is not None:
            ctx.scheduler.step()
            if self.dead:
                raise SimCrash()
        if len(self.log) < 300:
            self.log.append(op)
        f = self.faults.get(i)
        if f is None:
            return None
        kind = f["kind"]
        if kind == "kill":
            self.fired.append(f"kill@{op}")
            if data:
                return f
            self.dead = True
            raise SimCrash()
        if kind in ERRNO:
            if op in ("recv", "connect"):
                return None
            if kind == "enospc" and op not in ("write", "open_w", "mkdir", "rename", "truncate"):
                return None
            self.fired.append(f"{kind}@{op}")
            if data:
                return f
            raise OSError(ERRNO[kind], "simulated " + os.strerror(ERRNO[kind]), str(path))
        return None

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p == self.root or p.startswith(self.root + os.sep)


def client():
    return getattr(_tls, "client", None)


class as_client:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old = client()
        _tls.client = self.c
        return self.c

    def __exit__(self, *exc):
        _tls.client = self.old
        return False


# ----------------------------------------------------------------------- files
class SimRaw(io.FileIO):
    def __init__(self, file, mode, closefd=True, opener=None, owner=None):
        self._owner = owner
        super().__init__(file, mode, closefd=closefd, opener=opener)

    def write(self, b):
        c = self._owner
        f = c.io("write", self.name, data=True)
        if f is not None:
            n = int(len(b) * float(f.get("frac", 0.0)))
            if n:
                super().write(bytes(memoryview(b).cast("B")[:n]))
            if f["kind"] == "kill":
                c.dead = True
                raise SimCrash()
            raise OSError(ERRNO[f["kind"]], "simulated " + os.strerror(ERRNO[f["kind"]]))
        return super().write(b)

    def readinto(self, b):
        c = self._owner
        f = c.io("read", self.name, data=True)
        if f is not None:
            if f["kind"] == "kill":
                c.dead = True
                raise SimCrash()
            raise OSError(ERRNO[f["kind"]], "simulated " + os.strerror(ERRNO[f["kind"]]))
        return super().readinto(b)

    def readall(self):
        out = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def truncate(self, size=None):
        self._owner.io("truncate", self.name)
        return super().truncate(size)

    def close(self):
        if not self.closed and self.closefd:
            _release(self._owner, self.fileno())
        return super().close()


class _BufferedWriter(io.BufferedWriter):
    def close(self):
        try:
            super().close()
        finally:
            if not self.raw.closed:
                self.raw.close()


_real = {
    "open": builtins.open,
}


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    c = client()
    if c is not None and not isinstance(file, int) and any(m in mode for m in "wax+") and not c.mine(file) \
            and str(file) != os.devnull:
        c.escaped.append(f"open {file}")
        raise SimEscape(f"open {file}")
    if c is None or not c.mine(file):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    if not isinstance(file, int):
        c.io("open_w" if any(m in mode for m in "wax+") else "open_r", file)
    raw = SimRaw(file, raw_mode, closefd=closefd, opener=opener, owner=c)
    binary = "b" in mode
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in raw_mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = _BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def _wrap(name, op, both=False, opens=False):
    real = getattr(os, name)

    def f(*args, **kw):
        c = client()
        if c is None:
            return real(*args, **kw)
        target = args[0] if args else kw.get("path", kw.get("src"))
        dirfd = kw.get("dir_fd")
        inside = (dirfd is not None and dirfd in c.fds) or (dirfd is None and target is not None and c.mine(target))
        if both and len(args) > 1:
            inside = inside or c.mine(args[1])
        if not inside or (both and len(args) > 1 and not (c.mine(target) and c.mine(args[1]))):
            if op in DESTRUCTIVE or (op == "open_fd" and len(args) > 1
                                     and args[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                c.escaped.append(f"{name} {target}")
                raise SimEscape(f"{name} {target}")
            return real(*args, **kw)
        c.io(op, target)
        out = real(*args, **kw)
        if opens:
            c.fds.add(out)
        return out

    f.__name__ = name
    return f


def _os_write(fd, data):
    c = client()
    if c is None or fd not in c.fds:
        return _real["write"](fd, data)
    f = c.io("write", fd, data=True)
    if f is not None:
        n = int(len(data) * float(f.get("frac", 0.0)))
        if n:
            _real["write"](fd, bytes(data)[:n])
        if f["kind"] == "kill":
            c.dead = True
            raise SimCrash()
        raise OSError(ERRNO[f["kind"]], "simulated " + os.strerror(ERRNO[f["kind"]]))
    return _real["write"](fd, data)


def _os_close(fd):
    c = client()
    if c is not None:
        c.fds.discard(fd)
        _release(c, fd)
    return _real["close"](fd)


# advisory locks: (device, inode) -> [(client, fd, exclusive)]
_locks = {}


def _release(c, fd):
    for held in _locks.values():
        held[:] = [h for h in held if not (h[0] is c and h[1] == fd)]


def _flock(fd, operation, *args):
    import fcntl

    c = client()
    fd = fd if isinstance(fd, int) else fd.fileno()
    if c is None:
        return _real["flock"](fd, operation)
    st = os.fstat(fd)
    held = _locks.setdefault((st.st_dev, st.st_ino), [])
    if operation & fcntl.LOCK_UN:
        c.io("unlock", fd)
        held[:] = [h for h in held if not (h[0] is c and h[1] == fd)]
        return None
    exclusive = bool(operation & fcntl.LOCK_EX)
    for _ in range(100_000):
        c.io("lock", fd)
        # the system frees the locks of a dead process
        held[:] = [h for h in held if not h[0].dead and not (h[0] is c and h[1] == fd)]
        if not held or not (exclusive or any(h[2] for h in held)):
            held.append((c, fd, exclusive))
            return None
        if operation & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        _sleep(0.01)
    raise OSError(errno.EDEADLK, "lock is never released")


def _getpid():
    c = client()
    return _real["getpid"]() if c is None or c.pid is None else c.pid


def _sleep(s):
    c = client()
    if c is None:
        return _real["sleep"](s)
    if c.dead:
        raise SimCrash()
    ctx = monitor.current()
    if ctx is not None and ctx.scheduler is not None:
        ctx.scheduler.sleep(s)
    return None


def install():
    """Patch this (forked) process."""
    _real["write"], _real["close"] = os.write, os.close
    _real["getpid"], _real["sleep"] = os.getpid, time.sleep
    builtins.open = _open
    io.open = _open
    for name, op, both, opens in (
        ("open", "open_fd", False, True), ("remove", "remove", False, False),
        ("unlink", "remove", False, False), ("rename", "rename", True, False),
        ("replace", "rename", True, False), ("link", "link", True, False),
        ("rmdir", "rmdir", False, False), ("mkdir", "mkdir", False, False),
        ("stat", "stat", False, False), ("lstat", "stat", False, False), ("listdir", "list", False, False),
        ("scandir", "list", False, False), ("truncate", "truncate", False, False),
        ("access", "stat", False, False),
    ):
        setattr(os, name, _wrap(name, op, both, opens))
    os.write, os.close, os.getpid = _os_write, _os_close, _getpid
    time.sleep = _sleep
    # rmtree is driven through the patched functions above
    shutil._use_fd_functions = False
    # copies go through read and write
    shutil._USE_CP_SENDFILE = False
    import fcntl

    _real["flock"] = fcntl.flock
    fcntl.flock = fcntl.lockf = _flock
    os.fsync = lambda fd, _r=os.fsync: (client().io("fsync") if client() is not None else None, _r(fd))[1]
    # the existence tests of os.path may be implemented in C
    import genericpath

    def exists(path):
        try:
            os.stat(path)
        except (OSError, ValueError):
            return False
        return True

    def isfile(path):
        import stat

        try:
            return stat.S_ISREG(os.stat(path).st_mode)
        except (OSError, ValueError):
            return False

    def isdir(path):
        import stat

        try:
            return stat.S_ISDIR(os.stat(path).st_mode)
        except (OSError, ValueError):
            return False

    for m in (os.path, genericpath):
        m.exists, m.isfile, m.isdir = exists, isfile, isdir
    urllib.request.install_opener(_Opener())


# --------------------------------------------------------------------- network
class Network:
    """Published files by name; counts requests."""

    def __init__(self, files, up=True, length_header=True):
        self.files = files
        self.up = up
        self.length_header = length_header


class _Body(io.RawIOBase):
    def __init__(self, data, fault, c):
        self.data, self.pos, self.fault, self.c = data, 0, fault, c

    def readable(self):
        return True

    def readinto(self, b):
        c = self.c
        if c.dead:
            raise SimCrash()
        c.io("recv")
        end = len(self.data)
        f = self.fault
        if f is not None and f["kind"] in ("reset", "cut", "timeout"):
            end = min(end, int(len(self.data) * f["frac"]))
            if self.pos >= end:
                if f["kind"] == "cut":
                    return 0
                if f["kind"] == "timeout":
                    raise TimeoutError("simulated: the read operation timed out")
                raise ConnectionResetError(errno.ECONNRESET, "simulated connection reset")
        n = min(len(b), end - self.pos, 4096)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class _Opener:
    """Stands for the internet."""

    def open(self, fullurl, data=None, timeout=None):
        url = fullurl if isinstance(fullurl, str) else fullurl.full_url
        c = client()
        if c is None or c.network is None:
            raise urllib.error.URLError("simulated: no network")
        c.io("connect")
        i = c.requests
        c.requests += 1
        f = c.net.get(i)
        if f is not None:
            c.fired.append("net:" + f["kind"])
        if not c.network.up or (f and f["kind"] == "connect"):
            raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, "simulated: connection refused"))
        if f and f["kind"] in ("http404", "http503"):
            raise urllib.error.HTTPError(url, int(f["kind"][4:]), "simulated", email.message.Message(), None)
        name = url.rsplit("/", 1)[-1]
        if name not in c.network.files:
            raise urllib.error.HTTPError(url, 404, "Not Found", email.message.Message(), None)
        body = c.network.files[name]
        if f and f["kind"] == "html":
            body = b"<html><body>please log in</body></html>"
        headers = email.message.Message()
        headers["Content-Type"] = "application/octet-stream"
        if c.network.length_header and not (f and f.get("nolength")):
            headers["Content-Length"] = str(len(body))
        fp = io.BufferedReader(_Body(body, f, c), 4096)
        return urllib.response.addinfourl(fp, headers, url, 200)


class Scratch:
    """A scratch directory the check creates and removes."""

    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="dst-data-", dir="/tmp"))
        return self.path

    def __exit__(self, *exc):
        assert self.path.startswith("/tmp/dst-data-")
        shutil.rmtree(self.path, ignore_errors=True)
        return False
