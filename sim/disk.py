"""Simulated disk: real files in the run's scratch directory behind a seam at
``open``.  Faults strike at a chosen operation counted from installation:

  enospc   a write stores part of the buffer, then fails, and so does every
           later write until the fault is cleared
  eio      a write stores nothing and fails
  short    a raw write stores only part of the buffer (legal; callers loop)
  rshort   a raw read returns fewer bytes than asked (legal; callers loop)
  reio     a read fails
  crash    the process dies at this write; what was written to files since
           their last fsync survives only as a random prefix
  close    the final flush on close fails (delayed allocation)
"""

import builtins
import contextlib
import errno
import io
import os

from .core import InjectedOSError, SimCrash, nprng


class Disk:
    def __init__(self, ctx, root, seed=0):
        self.ctx = ctx
        self.root = os.path.realpath(root) + os.sep
        self.rng = nprng("disk", seed)
        self.n_write = 0
        self.n_read = 0
        self.n_open = 0
        self.plan = None            # {"kind", "at"}
        self.full = False
        self.dead = False
        self.fired = False
        self.files = []             # files written and not yet durable

    def arm(self, kind=None, at=0):
        self.plan = {"kind": kind, "at": at} if kind else None
        self.n_write = self.n_read = self.n_open = 0
        self.full = self.dead = self.fired = False
        self.files = []

    def _strike(self, kind):
        if not self.fired or kind in ("short", "rshort"):
            self.ctx.fault("disk-" + kind)
        self.fired = True
        self.ctx.event("disk", kind, self.n_write, self.n_read)

    # ------------------------------------------------------------------ ops
    def write(self, raw, b):
        if self.dead:
            return len(b)           # a dead process writes nothing
        b = bytes(b)
        self.n_write += 1
        p = self.plan
        if self.full:
            raise InjectedOSError(errno.ENOSPC, "No space left on device")
        if p and self.n_write - 1 == p["at"]:
            k = p["kind"]
            if k == "enospc":
                self._strike(k)
                self.full = True
                n = int(self.rng.integers(0, len(b) + 1))
                os.write(raw.fd, b[:n])
                raise InjectedOSError(errno.ENOSPC, "No space left on device")
            if k == "eio":
                self._strike(k)
                raise InjectedOSError(errno.EIO, "Input/output error")
            if k == "crash":
                self._strike(k)
                n = int(self.rng.integers(0, len(b) + 1))
                os.write(raw.fd, b[:n])
                self.crash()
                raise SimCrash("process died during a write")
        if p and p["kind"] == "short" and len(b) > 1 and \
                self.rng.random() < 0.5:
            self._strike("short")
            n = int(self.rng.integers(1, len(b)))
            os.write(raw.fd, b[:n])
            return n
        off = 0
        while off < len(b):
            off += os.write(raw.fd, b[off:])
        return len(b)

    def crash(self):
        """Volatile page cache: each dirty file keeps a random prefix."""
        self.dead = True
        for path, base in self.files:
            try:
                size = os.path.getsize(path)
            except OSError:
                continue
            if size > base:
                keep = base + int(self.rng.integers(0, size - base + 1))
                with self._orig(path, "r+b") as f:
                    f.truncate(keep)

    def read(self, raw, n):
        self.n_read += 1
        p = self.plan
        if p and p["kind"] == "reio" and self.n_read - 1 == p["at"]:
            self._strike("reio")
            raise InjectedOSError(errno.EIO, "Input/output error")
        if p and p["kind"] == "rshort" and n > 1 and self.rng.random() < .5:
            self._strike("rshort")
            n = int(self.rng.integers(1, n))
        return os.read(raw.fd, n)

    # ----------------------------------------------------------------- open
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        ours = isinstance(file, (str, os.PathLike)) and os.path.realpath(
            os.fspath(file)).startswith(self.root)
        if not ours:
            return self._orig(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        self.n_open += 1
        if self.dead:
            raise SimCrash("process is dead")
        path = os.path.realpath(os.fspath(file))
        p = self.plan
        writing = any(c in mode for c in "wax+")
        if p and p["kind"] == "open" and self.n_open - 1 == p["at"]:
            self._strike("open")
            raise InjectedOSError(errno.EACCES, "Permission denied", path)
        raw = SimRaw(self, path, mode)
        if writing:
            base = 0 if "w" in mode else (
                os.path.getsize(path) if os.path.exists(path) else 0)
            self.files.append((path, base))
        if "+" in mode:
            buf = io.BufferedRandom(raw)
        elif writing:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    @contextlib.contextmanager
    def installed(self):
        self._orig = builtins.open
        io_open = io.open
        builtins.open = self._open
        io.open = self._open
        try:
            yield self
        finally:
            builtins.open = self._orig
            io.open = io_open


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        super().__init__()
        self.disk = disk
        self.name = path
        self.mode = mode
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
        fl = [flags[c] for c in mode if c in flags][0]
        if "+" in mode:
            fl = (fl & ~(os.O_RDONLY | os.O_WRONLY)) | os.O_RDWR
        self.fd = os.open(path, fl | os.O_CLOEXEC, 0o644)

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return any(c in self.mode for c in "wax+")

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self.fd, self.tell() if size is None else size)
        return size

    def readinto(self, b):
        data = self.disk.read(self, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self.disk.write(self, b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                os.close(self.fd)
