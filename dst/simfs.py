"""Simulated disk over a scratch directory.

Real files under `root` hold what the operating system would have (page cache); a shadow
keeps what a power loss cannot take away.  Every operation is a preemption point and a fault point.
Fault points are counted per task; the plan maps (task, n) to a fault kind."""
import builtins
import errno
import io
import os
import stat as _stat
import sys
import threading

from . import engine

_open = io.open
_os = {n: getattr(os, n) for n in (
    "open", "close", "read", "write", "fsync", "fdatasync", "replace", "rename", "remove", "unlink", "mkdir",
    "rmdir", "stat", "lstat", "listdir", "scandir", "truncate", "ftruncate", "link", "symlink", "access",
    "getpid", "urandom", "fdopen", "pread", "pwrite", "utime", "chmod")}
_abspath = os.path.abspath

FS = None       # active SimFS


class SimFS:
    def __init__(self, root, faults=(), strict_dirsync=True):
        self.root = root
        self.faults = {}
        for f in faults:
            self.faults[(f[0], f[1])] = f[2:]
        self.count = {}          # task -> fault points passed
        self.ns = {}             # path -> inode id, as the OS sees it
        self.durable_ns = {}     # path -> inode id, committed
        self.pending = []        # directory operations not committed
        self.synced = {}         # inode id -> bytes known durable (absent: nothing)
        self.dead_content = {}   # inode id -> content of replaced/unlinked files
        self.next_ino = 1
        self.strict = strict_dirsync
        self.fds = {}            # real fd -> (path, inode id)
        self.poison = {}         # inode id -> sticky errno on write
        self.log = []
        self.on_power = None
        self.enabled = True
        self.alias = []          # (real prefix, scratch prefix)

    def setup_file(self, path, data):
        """A file that exists durably before the run."""
        d = os.path.dirname(path)
        os.makedirs(d, exist_ok=True)
        with _open(path, "wb") as f:
            f.write(data)
        ino = self.next_ino
        self.next_ino += 1
        self.ns[path] = self.durable_ns[path] = ino
        self.synced[ino] = data

    def mine(self, path):
        if FS is not self or not self.enabled or isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        s = engine.CURRENT
        t = s.me() if s is not None else None
        if t is None or t.noyield:
            return None
        p = _abspath(p)
        for a, b in self.alias:
            if p.startswith(a):
                p = b + p[len(a):]
        if p == self.root or p.startswith(self.root + "/"):
            return p
        return None

    # -- fault points ------------------------------------------------------------------
    def point(self, op, path):
        """Returns a fault kind to apply to this operation, or None."""
        s = engine.CURRENT
        t = s.me()
        s.point("fs")
        n = self.count.get(t.id, 0)
        self.count[t.id] = n + 1
        if len(self.log) < 4000:
            self.log.append((t.id, n, op, os.path.relpath(path, self.root) if path else ""))
        f = self.faults.get((t.id, n))
        if f is None:
            return None
        kind = f[0]
        if kind == "kill":
            s.inject("kill")
            s.kill_proc(t.proc)
        if kind == "power":
            s.inject("power-loss")
            self.on_power(f[1] if len(f) > 1 else 0)
        return kind

    def err(self, kind, path, applicable):
        """Raise the fault if it applies to this kind of operation."""
        if kind is None or kind not in applicable:
            return
        s = engine.CURRENT
        code = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "emfile": errno.EMFILE}.get(kind)
        if code is None:
            return
        s.inject("disk-" + kind)
        raise OSError(code, os.strerror(code), path)

    # -- inodes ------------------------------------------------------------------------
    def content(self, ino):
        for p, i in self.ns.items():
            if i == ino:
                try:
                    with _open(p, "rb") as f:
                        return f.read()
                except OSError:
                    return b""
        return self.dead_content.get(ino, b"")

    def created(self, path):
        ino = self.next_ino
        self.next_ino += 1
        self.ns[path] = ino
        self.pending.append(("link", path, ino))
        return ino

    def gone(self, path):
        ino = self.ns.pop(path, None)
        if ino is not None:
            try:
                with _open(path, "rb") as f:
                    self.dead_content[ino] = f.read()
            except OSError:
                pass
        return ino

    def fsync(self, ino):
        self.synced[ino] = self.content(ino)
        if not self.strict:
            self.commit()

    def commit(self):
        for op in self.pending:
            self._apply(self.durable_ns, op)
        self.pending = []

    @staticmethod
    def _apply(ns, op):
        if op[0] == "link":
            ns[op[1]] = op[2]
        elif op[0] == "unlink":
            ns.pop(op[1], None)
        elif op[0] == "rename":
            ns.pop(op[1], None)
            ns[op[2]] = op[3]

    def power_loss(self, rng):
        """Rewrite the real directory to one state the disk could be in."""
        contents = {ino: self.content(ino) for ino in set(self.ns.values()) | set(self.dead_content)}
        ns = dict(self.durable_ns)
        k = rng.randint(0, len(self.pending))
        for op in self.pending[:k]:
            self._apply(ns, op)
        for base, dirs, files in os.walk(self.root):
            for f in files:
                _os["remove"](os.path.join(base, f))
        self.ns, self.durable_ns, self.pending = {}, {}, []
        for p, ino in sorted(ns.items()):
            cur = contents.get(ino, b"")
            dur = self.synced.get(ino)
            if dur == cur:
                data = cur
            else:
                choice = rng.randint(0, 4)
                if choice == 0:
                    data = dur or b""
                elif choice == 1:
                    data = cur
                elif choice == 2:
                    data = b""
                elif choice == 3:
                    data = cur[:rng.randint(0, len(cur))]
                else:
                    data = cur[:(len(cur) // 512) * 512]
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with _open(p, "wb") as f:
                f.write(data)
            i = self.next_ino
            self.next_ino += 1
            self.ns[p] = self.durable_ns[p] = i
            self.synced[i] = data
        self.dead_content = {}
        self.fds = {}
        self.poison = {}


class SimRaw(io.FileIO):
    """The raw layer under Python's own buffering: one write call = one system call."""

    def __init__(self, file, mode, closefd=True, opener=None, _path=None, _ino=None):
        super().__init__(file, mode, closefd=closefd, opener=opener)
        self._p, self._ino = _path, _ino
        if FS is not None and _path is not None:
            FS.fds[self.fileno()] = (_path, _ino)

    def _live(self):
        return (FS is not None and FS.enabled and self._p is not None and engine.CURRENT is not None
                and engine.CURRENT.me() is not None)

    def write(self, b):
        if not self._live():
            s = engine.CURRENT
            if self._p is not None and s is not None and s.me() is None:
                return len(b)          # finaliser of a dead process
            return super().write(b)
        return _fs_write(lambda x: super(SimRaw, self).write(x), b, self._p, self._ino)

    def _rd(self):
        if self._live():
            k = FS.point("read", self._p)
            FS.err(k, self._p, ("eio",))

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def read(self, n=-1):
        self._rd()
        return super().read(n)

    def readall(self):
        self._rd()
        return super().readall()

    def truncate(self, size=None):
        if self._live():
            k = FS.point("truncate", self._p)
            FS.err(k, self._p, ("eio",))
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        if self._live():
            FS.point("close", self._p)
        try:
            if FS is not None:
                FS.fds.pop(self.fileno(), None)
        except Exception:
            pass
        super().close()


def _fs_write(real, b, path, ino):
    k = FS.point("write", path)
    s = engine.CURRENT
    b = bytes(b)
    if ino in FS.poison:
        code = FS.poison[ino]
        raise OSError(code, os.strerror(code), path)
    if k == "enospc":
        s.inject("disk-enospc")
        FS.poison[ino] = errno.ENOSPC
        n = len(b) // 2
        if n:
            real(b[:n])
            return n
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
    if k == "eio":
        s.inject("disk-eio")
        FS.poison[ino] = errno.EIO
        raise OSError(errno.EIO, os.strerror(errno.EIO), path)
    if k == "short" and len(b) > 1:
        s.inject("disk-short-write")
        return real(b[:len(b) // 2])
    if k == "torn-kill":
        s.inject("kill-mid-write")
        if len(b) > 1:
            real(b[:len(b) // 2])
        t = s.me()
        s.kill_proc(t.proc)
    return real(b)


def _flags_to_mode(flags):
    acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
    return acc in (os.O_WRONLY, os.O_RDWR)


def _before_open(p, create, trunc, excl):
    """Fault point and bookkeeping common to open() and os.open(); returns existing."""
    k = FS.point("open-w" if (create or trunc) else "open", p)
    FS.err(k, p, ("eio", "eacces", "emfile") + (("enospc",) if create else ()))
    try:
        _os["stat"](p)
        existed = True
    except OSError:
        existed = False
    return existed


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FS
    if fs is not None and isinstance(file, int) and file in fs.fds and engine.CURRENT is not None \
            and engine.CURRENT.me() is not None:
        p, ino = fs.fds[file]
    else:
        p = fs.mine(file) if fs is not None else None
        if p is None:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        ino = None
    m = mode.replace("t", "").replace("b", "").replace("U", "")
    binary = "b" in mode
    if isinstance(file, int):
        raw = SimRaw(file, m, closefd=closefd, _path=p, _ino=ino)
    else:
        create = any(c in m for c in "wax")
        existed = _before_open(p, create, "w" in m, "x" in m)
        raw = SimRaw(p, m, closefd=closefd, opener=opener, _path=p)
        if not existed and create:
            raw._ino = fs.created(p)
        else:
            raw._ino = fs.ns.get(p)
            if raw._ino is None:
                raw._ino = fs.created(p)
        fs.fds[raw.fileno()] = (p, raw._ino)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in m:
        buf = io.BufferedRandom(raw, bs)
    elif any(c in m for c in "wax"):
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def _wrap_path(name, op, errs):
    real = _os[name]

    def f(path, *a, **kw):
        fs = FS
        p = fs.mine(path) if fs is not None else None
        if p is not None:
            k = fs.point(op, p)
            fs.err(k, p, errs)
            path = p
        return real(path, *a, **kw)
    f.__name__ = name
    return f


def _sim_unlink(path, *a, **kw):
    fs = FS
    p = fs.mine(path) if fs is not None else None
    if p is None:
        return _os["unlink"](path, *a, **kw)
    k = fs.point("unlink", p)
    fs.err(k, p, ("eio", "eacces"))
    _os["stat"](p)
    ino = fs.gone(p)
    _os["unlink"](p)
    if ino is not None:
        fs.pending.append(("unlink", p))


def _sim_replace(name):
    real = _os[name]

    def f(src, dst, *a, **kw):
        fs = FS
        p = fs.mine(src) if fs is not None else None
        q = fs.mine(dst) if fs is not None else None
        if p is None and q is None:
            return real(src, dst, *a, **kw)
        src, dst, a, kw = p or src, q or dst, (), {}
        k = fs.point("rename", q or p)
        fs.err(k, p, ("eio", "eacces", "enospc"))
        st = _os["stat"](src)
        if _stat.S_ISDIR(st.st_mode):
            return real(src, dst, *a, **kw)
        if q is not None:
            fs.gone(q)
        real(src, dst, *a, **kw)
        ino = fs.ns.pop(p, None)
        if ino is not None and q is not None:
            fs.ns[q] = ino
            fs.pending.append(("rename", p, q, ino))
        elif q is not None:
            fs.created(q)
    f.__name__ = name
    return f


def _sim_link(src, dst, *a, **kw):
    fs = FS
    p = fs.mine(src) if fs is not None else None
    q = fs.mine(dst) if fs is not None else None
    if p is None or q is None:
        return _os["link"](src, dst, *a, **kw)
    k = fs.point("link", q)
    fs.err(k, q, ("eio", "eacces", "enospc"))
    _os["link"](p, q)
    ino = fs.ns.get(p)
    if ino is not None:
        fs.ns[q] = ino
        fs.pending.append(("link", q, ino))


def _sim_os_open(path, flags, mode=0o777, *a, **kw):
    fs = FS
    p = fs.mine(path) if fs is not None else None
    if p is None:
        return _os["open"](path, flags, mode, *a, **kw)
    create = bool(flags & os.O_CREAT)
    existed = _before_open(p, create, bool(flags & os.O_TRUNC), bool(flags & os.O_EXCL))
    fd = _os["open"](p, flags, mode)
    if _stat.S_ISDIR(_os["stat"](p).st_mode):
        fs.fds[fd] = (p, None)
        return fd
    if not existed and create:
        ino = fs.created(p)
    else:
        ino = fs.ns.get(p)
        if ino is None:
            ino = fs.created(p)
    fs.fds[fd] = (p, ino)
    return fd


def _sim_os_write(fd, b):
    fs = FS
    s = engine.CURRENT
    if fs is None or fd not in fs.fds or s is None or s.me() is None:
        return _os["write"](fd, b)
    p, ino = fs.fds[fd]
    return _fs_write(lambda x: _os["write"](fd, x), b, p, ino)


def _sim_os_read(fd, n):
    fs = FS
    s = engine.CURRENT
    if fs is not None and fd in fs.fds and s is not None and s.me() is not None:
        k = fs.point("read", fs.fds[fd][0])
        fs.err(k, fs.fds[fd][0], ("eio",))
    return _os["read"](fd, n)


def _sim_os_close(fd):
    fs = FS
    s = engine.CURRENT
    if fs is not None and fd in fs.fds and s is not None and s.me() is not None:
        fs.point("close", fs.fds[fd][0])
        fs.fds.pop(fd, None)
    return _os["close"](fd)


def _sim_fsync(name):
    def f(fd):
        fs = FS
        s = engine.CURRENT
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fs is None or fd not in fs.fds or s is None or s.me() is None:
            return _os[name](fd)
        p, ino = fs.fds[fd]
        k = fs.point("fsync", p)
        fs.err(k, p, ("eio", "enospc"))
        if ino is None:
            fs.commit()          # directory
        else:
            fs.fsync(ino)
    f.__name__ = name
    return f


def _sim_mkdir(path, *a, **kw):
    fs = FS
    p = fs.mine(path) if fs is not None else None
    if p is not None:
        k = fs.point("mkdir", p)
        fs.err(k, p, ("eio", "eacces", "enospc"))
        path = p
    return _os["mkdir"](path, *a, **kw)


def _sim_getpid():
    s = engine.CURRENT
    t = s.me() if s is not None else None
    if t is None:
        return _os["getpid"]()
    return 4000 + t.proc


_ucount = [0]


def _sim_urandom(n):
    s = engine.CURRENT
    if s is None:
        return _os["urandom"](n)
    import hashlib
    _ucount[0] += 1
    out = b""
    while len(out) < n:
        out += hashlib.sha256(b"%d/%d" % (_ucount[0], len(out))).digest()
    return out[:n]


class _flock:
    locks = {}


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = _sim_os_open
    os.write = _sim_os_write
    os.read = _sim_os_read
    os.close = _sim_os_close
    os.fsync = _sim_fsync("fsync")
    os.fdatasync = _sim_fsync("fdatasync")
    os.unlink = os.remove = _sim_unlink
    os.replace = _sim_replace("replace")
    os.rename = _sim_replace("rename")
    os.link = _sim_link
    os.mkdir = _sim_mkdir
    os.stat = _wrap_path("stat", "stat", ())
    os.lstat = _wrap_path("lstat", "stat", ())
    os.access = _wrap_path("access", "stat", ())
    os.listdir = _wrap_path("listdir", "listdir", ("eio",))
    os.scandir = _wrap_path("scandir", "listdir", ("eio",))
    os.truncate = _wrap_path("truncate", "truncate", ("eio",))
    os.getpid = _sim_getpid
    os.urandom = _sim_urandom
    import tempfile
    import random

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            return _sim_urandom(6).hex()
    tempfile._name_sequence = _Names()
    try:
        import fcntl
        fcntl.flock = _sim_flock
        fcntl.lockf = _sim_flock
    except ImportError:
        pass


def _sim_flock(fd, operation, *a):
    import fcntl
    fs = FS
    s = engine.CURRENT
    if not isinstance(fd, int):
        fd = fd.fileno()
    if fs is None or fd not in fs.fds or s is None or s.me() is None:
        return None
    t = s.me()
    key = fs.fds[fd][1]
    held = fs.__dict__.setdefault("flocks", {})
    s.point("flock")
    if operation & fcntl.LOCK_UN:
        if held.get(key, (None,))[0] == fd:
            held.pop(key, None)
        return None

    def free():
        h = held.get(key)
        return h is None or h[0] == fd or h[1] in s.dead_procs or h[0] not in fs.fds
    while not free():
        if operation & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EWOULDBLOCK, "locked")
        s.block(free)
    held[key] = (fd, t.proc)
    return None
