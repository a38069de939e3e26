"""Seams: clock, signals, resource limits, file system calls.

Imported before hachoir: the functions which hachoir may bind with
"from time import time" are replaced by functions which delegate to the
simulated environment of the current run, if any, or to the real function.
"""
import builtins
import io
import os
import resource
import signal
import time
import types

real = types.SimpleNamespace(
    time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
    process_time=time.process_time, sleep=time.sleep,
    strftime=time.strftime, localtime=time.localtime,
    signal=signal.signal, getsignal=signal.getsignal, alarm=signal.alarm,
    setitimer=signal.setitimer, getitimer=signal.getitimer,
    getrlimit=resource.getrlimit, setrlimit=resource.setrlimit,
    open=builtins.open, io_open=io.open,
    os=types.SimpleNamespace(**{n: getattr(os, n) for n in (
        "open", "read", "write", "close", "lseek", "fsync", "dup", "fdopen",
        "stat", "fstat", "unlink", "remove", "rename", "replace", "mkdir",
        "access", "listdir")}))


class Env:
    """The simulated environment of the run (None: the real thing)."""
    clock = None      # .time() .sleep(s)
    kernel = None     # .signal .getsignal .alarm .setitimer
    limits = None     # .getrlimit .setrlimit
    fs = None         # .handles(path) .open(...) ...


env = Env()


def _clock(name):
    def f(*args):
        if env.clock is None:
            return getattr(real, name)(*args)
        return getattr(env.clock, name, env.clock.time)()
    f.__name__ = name
    return f


def _sleep(secs):
    if env.clock is None:
        return real.sleep(secs)
    env.clock.sleep(secs)


def _delegate(attr, name):
    realf = getattr(real, name)

    def f(*args, **kw):
        target = getattr(env, attr)
        if target is None:
            return realf(*args, **kw)
        return getattr(target, name)(*args, **kw)
    f.__name__ = name
    return f


def _strftime(fmt, t=None):
    if env.clock is not None and t is None:
        t = time.gmtime(env.clock.time())
    return real.strftime(fmt, t) if t is not None else real.strftime(fmt)


def _open(file, *args, **kw):
    if env.fs is not None and env.fs.handles(file):
        return env.fs.open(file, *args, **kw)
    return real.open(file, *args, **kw)


def _os(name):
    realf = getattr(real.os, name)

    def f(path, *args, **kw):
        if env.fs is not None and env.fs.handles(path):
            return getattr(env.fs, "os_" + name)(path, *args, **kw)
        return realf(path, *args, **kw)
    f.__name__ = name
    return f


for _n in ("time", "monotonic", "perf_counter", "process_time"):
    setattr(time, _n, _clock(_n))
time.sleep = _sleep
time.strftime = _strftime
for _n in ("signal", "getsignal", "alarm", "setitimer", "getitimer"):
    setattr(signal, _n, _delegate("kernel", _n))
for _n in ("getrlimit", "setrlimit"):
    setattr(resource, _n, _delegate("limits", _n))
builtins.open = _open
io.open = _open
for _n in ("stat", "unlink", "remove", "mkdir", "access", "listdir"):
    setattr(os, _n, _os(_n))


def _os_open(path, *args, **kw):
    if env.fs is not None and hasattr(env.fs, "os_open") and env.fs.handles(path):
        return env.fs.os_open(path, *args, **kw)
    return real.os.open(path, *args, **kw)


def _fdopen(fd, *args, **kw):
    if env.fs is not None and fd in getattr(env.fs, "fds", ()):
        return env.fs.fdopen(fd, *args, **kw)
    return real.os.fdopen(fd, *args, **kw)


def _os_close(fd):
    if env.fs is not None and fd in getattr(env.fs, "fds", ()):
        return env.fs.os_close(fd)
    return real.os.close(fd)


os.open = _os_open
os.fdopen = _fdopen
os.close = _os_close
