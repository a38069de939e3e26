"""A simulated file system: files in memory under /sim, with faults of the
disk.  Files are opened through the real io classes (buffers, text layer) on a
raw file which is simulated; seams.env.fs routes open() and os calls to it.

Faults are given by the plan: {number of the raw call: kind}. Kinds: eio,
enospc, short (a write or read transfers less than asked), eacces (open),
emfile (open), close (close fails)."""
import errno
import io
import os
import stat as statmod

ROOT = "/sim"
DIRECTORY = None


def error(kind, path):
    code = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES,
            "emfile": errno.EMFILE, "close": errno.EIO, "edquot": errno.EDQUOT,
            "eintr": errno.EINTR}[kind]
    return OSError(code, os.strerror(code) + " (simulated)", path)


class Raw(io.RawIOBase):
    def __init__(self, fs, path, readable, writable, append=False):
        self.fs = fs
        self.path = self.name = path
        self.mode = "rb" if readable and not writable else "wb"
        self._r = readable
        self._w = writable
        self.append = append
        self.pos = 0
        fs.opened += 1
        fs.handles_open.add(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.fs.files[self.path])
        if pos < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = pos
        return pos

    def readinto(self, buf):
        kind = self.fs.fault("read", self.path)
        if kind == "eio":
            raise error(kind, self.path)
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind == "memory":
            raise MemoryError()
        n = len(buf)
        if kind == "short" and n > 1:
            n = 1 + n * 5 // 16
        d = self.fs.files[self.path][self.pos:self.pos + n]
        buf[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, buf):
        if not self._w:
            raise io.UnsupportedOperation("write")
        kind = self.fs.fault("write", self.path)
        data = bytes(buf)
        if kind in ("eio", "enospc", "edquot"):
            raise error(kind, self.path)
        if self.fs.space is not None:
            if not self.fs.space and data:
                self.fs.ctx.fault("enospc")
                raise error("enospc", self.path)
            data = data[:self.fs.space]
            self.fs.space -= len(data)
        if kind == "short" and len(data) > 1:
            data = data[:1 + len(data) * 5 // 16]
        f = self.fs.files[self.path]
        if self.append:
            self.pos = len(f)
        if self.pos > len(f):
            f.extend(bytes(self.pos - len(f)))
        f[self.pos:self.pos + len(data)] = data
        self.pos += len(data)
        self.fs.events.append(("write", self.path, len(data)))
        return len(data)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        f = self.fs.files[self.path]
        del f[size:]
        f.extend(bytes(max(0, size - len(f))))
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        self.fs.handles_open.discard(self)
        self.fs.events.append(("close", self.path))
        kind = self.fs.fault("close", self.path) if self._w else None
        if kind == "close":
            raise error(kind, self.path)


class SimFS:
    def __init__(self, ctx, script=(), space=None):
        self.ctx = ctx
        self.files = {}             # path: bytearray, or DIRECTORY
        self.files[ROOT] = DIRECTORY
        self.script = {(op, n): kind for op, n, kind in script}
        self.calls = {}
        self.space = space
        self.enabled = True
        self.opened = 0
        self.handles_open = set()
        self.events = []
        self.fired = []
        self.fired_paths = []
        self.fds = {}               # descriptors of os.open()

    def fault(self, op, path):
        n = self.calls.get(op, 0)
        self.calls[op] = n + 1
        if not self.enabled:
            return None
        kind = self.script.get((op, n))
        if kind:
            self.ctx.fault(kind)
            self.fired.append((op, n, kind))
            self.fired_paths.append((path, kind))
        return kind

    # ------------------------------------------------------------- seams
    @staticmethod
    def _path(path):
        if isinstance(path, int):
            return None
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return path

    def handles(self, path):
        path = self._path(path)
        return path is not None and (path == ROOT or path.startswith(ROOT + "/"))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = self._path(file)
        kind = self.fault("open", path)
        if kind in ("eacces", "emfile", "enospc", "eio"):
            raise error(kind, path)
        if self.files.get(path, b"") is DIRECTORY:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        parent = os.path.dirname(path)
        if parent not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        base = mode.replace("b", "").replace("t", "").replace("+", "")
        plus = "+" in mode
        if base == "r" and path not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if base == "x" and path in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        if base == "w":
            self.files[path] = bytearray()
            self.events.append(("truncate", path))
        elif path not in self.files:
            self.files[path] = bytearray()
        raw = Raw(self, path, base == "r" or plus, base != "r" or plus, base == "a")
        if base == "a":
            raw.seek(0, 2)
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif base == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def os_open(self, path, flags, mode=0o777, **kw):
        path = self._path(path)
        kind = self.fault("open", path)
        if kind in ("eacces", "emfile", "enospc", "eio"):
            raise error(kind, path)
        if self.files.get(path, b"") is DIRECTORY and not flags & os.O_EXCL:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        if os.path.dirname(path) not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if path in self.files:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, "File exists", path)
        elif not flags & os.O_CREAT:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if path not in self.files or flags & os.O_TRUNC:
            self.files[path] = bytearray()
        access = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        raw = Raw(self, path, access != os.O_WRONLY, access != os.O_RDONLY,
                  bool(flags & os.O_APPEND))
        fd = 1000000 + len(self.fds)
        self.fds[fd] = raw
        return fd

    def fdopen(self, fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
               closefd=True, opener=None):
        raw = self.fds[fd]
        if "b" in mode and buffering == 0:
            return raw
        buf = (io.BufferedReader if "r" in mode else io.BufferedWriter)(raw)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

    def os_close(self, fd):
        self.fds[fd].close()

    def os_stat(self, path, **kw):
        path = self._path(path)
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        data = self.files[path]
        isdir = data is DIRECTORY
        mode = (statmod.S_IFDIR | 0o755) if isdir else (statmod.S_IFREG | 0o644)
        return os.stat_result((mode, 1, 1, 1, 0, 0, 0 if isdir else len(data), 0, 0, 0))

    def os_access(self, path, mode, **kw):
        return self._path(path) in self.files

    def os_mkdir(self, path, *args, **kw):
        path = self._path(path)
        kind = self.fault("mkdir", path)
        if kind in ("eacces", "enospc", "eio"):
            raise error(kind, path)
        if path in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        self.files[path] = DIRECTORY

    def os_unlink(self, path, *args, **kw):
        path = self._path(path)
        if self.files.get(path) is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        del self.files[path]

    os_remove = os_unlink

    def os_listdir(self, path="."):
        path = self._path(path)
        return sorted(os.path.basename(p) for p in self.files
                      if os.path.dirname(p) == path)

    # ------------------------------------------------------------ helpers
    def write_file(self, path, data):
        self.files[path] = bytearray(data)

    def content(self, path):
        return bytes(self.files[path])


def gen_faults(rng, ops, n=None, span=30):
    """Script of faults: [op, number of the call, kind]"""
    out = []
    for _ in range(rng.pick([0, 1, 1, 2, 4]) if n is None else n):
        op = rng.pick(ops)
        kind = {"read": ["eio", "short", "short"], "write": ["enospc", "eio", "short", "short"],
                "open": ["eacces", "emfile"], "close": ["close"],
                "mkdir": ["eacces"]}[op]
        out.append([op, rng.randrange(rng.pick([2, 6, span])), rng.pick(kind)])
    return out
