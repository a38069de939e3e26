"""T01: time limits.  T02: memory limits.  B01: benchmark.  L01: log."""
import gc
import errno
import io
import os
import math
import signal
import sys

from simkit import core, docs, seams
from simkit.core import Prop, Violation, short
from simkit.fs import ROOT, SimFS, gen_faults


class Clock:
    """Simulated time: a monotonic clock, and a wall clock which may jump"""

    def __init__(self, ctx=None):
        self.now = 1000.0
        self.offset = 1.6e9
        self.ctx = ctx

    def monotonic(self):
        return self.now

    perf_counter = process_time = monotonic

    def time(self):
        return self.now + self.offset

    def advance(self, dt):
        self.now += dt
        if self.ctx:
            self.ctx.simtime += dt

    sleep = advance

    def jump(self, dt):
        self.offset += dt


# ------------------------------------------------------------------------ T01

class Kernel:
    """Signals and alarms of a process, at the points where CPython handles
    signals: when a function starts, in loops and when a call of C returns."""
    TOOL = 4

    def __init__(self, clock, ctx, stalls):
        self.clock = clock
        self.ctx = ctx
        self.handlers = {}
        self.deadline = None
        self.pending = False
        self.delivered = 0
        self.points = 0
        self.stalls = dict(stalls)
        self.stalled = 0.0
        self.active = False
        self.arm = 0                # number of times an alarm was set

    # signals
    def arrive(self):
        if self.deadline is not None and self.clock.now >= self.deadline - 1e-9:
            self.deadline = None
            self.pending = True

    def point(self):
        """A point where signals are handled"""
        if not self.active:
            return
        n = self.points
        self.points += 1
        if n in self.stalls:
            dt = self.stalls[n]
            self.stalled += dt
            self.ctx.fault("stall")
            self.clock.advance(dt)
        self.arrive()
        if self.pending:
            self.pending = False
            self.delivered += 1
            handler = self.getsignal(signal.SIGALRM)
            self.ctx.event("SIGALRM", self.clock.now)
            self.ctx.probe("signals")
            if handler is signal.SIG_DFL:
                raise Violation("process-killed", "SIGALRM is delivered when no handler "
                                "is installed: the process would be killed")
            if handler is not signal.SIG_IGN:
                handler(signal.SIGALRM, None)

    def signal(self, signum, handler):
        self.point()
        old = self.getsignal(signum)
        self.handlers[signum] = handler
        self.point()
        return old

    def getsignal(self, signum):
        return self.handlers.get(signum, signal.SIG_DFL)

    def remaining(self):
        return max(self.deadline - self.clock.now, 1e-6) if self.deadline is not None else 0.0

    def alarm(self, seconds):
        return int(math.ceil(self.setitimer(signal.ITIMER_REAL, int(seconds))[0]))

    def setitimer(self, which, seconds, interval=0.0):
        if which != signal.ITIMER_REAL:
            raise core.HarnessError("timer %s is not simulated" % which)
        self.point()
        old = (self.remaining(), 0.0)
        self.deadline = self.clock.now + seconds if seconds else None
        if seconds:
            self.arm += 1
        self.point()
        return old

    def getitimer(self, which):
        if which != signal.ITIMER_REAL:
            return seams.real.getitimer(which)
        self.point()
        return (self.remaining(), 0.0)

    def work(self, dt):
        """The process works: it is interrupted at the exact time"""
        end = self.clock.now + dt
        self.ctx.simtime += dt
        while True:
            if self.deadline is not None and self.deadline <= end:
                self.clock.now = max(self.clock.now, self.deadline)
                self.point()
            else:
                self.clock.now = max(self.clock.now, end)
                self.point()
                if self.clock.now >= end:
                    return

    # delivery points inside of the module under test
    def start(self, filename):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "kernel")

        def event(code, *args):
            if not code.co_filename.endswith(filename):
                return mon.DISABLE
            self.point()
        mon.register_callback(self.TOOL, mon.events.PY_START, event)
        mon.register_callback(self.TOOL, mon.events.JUMP, event)
        mon.set_events(self.TOOL, mon.events.PY_START | mon.events.JUMP)
        self.active = True

    def stop(self):
        self.active = False
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


class BodyError(Exception):
    pass


class T01(Prop):
    id = "T01"
    title = "A function run with a time limit is interrupted, and leaves no trace"
    runs = {"quick": 20000, "thorough": 1000000}
    lists = ("body", "stalls")
    method = ("simulated clock, alarms and signals (delivered at every point where the "
              "interpreter handles them), seeded stalls of the process")
    rule = ("One run: a tree of functions which work, fail, swallow errors and call others with "
            "time limits, in a process which has its own alarm or not and is stalled at the "
            "points of the plan. Non-trivial: a limit expired or a call was nested.")
    real = ["hachoir.core.timeout"]
    stubs = ["clock", "signal, alarm and timers of the process"]
    assumptions = ["signals are handled at calls, loops and returns of C functions (CPython)"]

    def gen(self, rng, index, tier):
        def body(depth):
            out = []
            for _ in range(rng.pick([0, 1, 1, 2, 3])):
                k = rng.randrange(10)
                if k < 4:
                    out.append(["work", rng.pick([0.0, 0.3, 0.9, 1.0, 1.5, 2.2, 5.0, 40.0])])
                elif k < 8 and depth < 4:
                    out.append(["limit", rng.pick([0, 1, 1, 2, 3, 10, 0.2, 1.4, 2.0, 7.5]),
                                body(depth + 1)])
                elif k == 8 and depth < 4:
                    out.append(["swallow", body(depth + 1)])
                elif k == 9 and rng.chance(0.4):
                    out.append(["raise"])
            return out
        return {"app": rng.pick([None, None, [rng.pick([1, 2, 3, 6, 30])]]),
                "handler": rng.chance(0.5),
                "body": [["limit", rng.pick([1, 2, 3, 8, 0.5]), body(1)]] + body(0),
                "stalls": sorted([rng.randrange(rng.pick([8, 20, 60])),
                                  rng.pick([0.1, 0.5, 1.0, 3.0, 12.0])]
                                 for _ in range(rng.pick([0, 0, 1, 1, 2, 4])))}

    def run(self, plan, ctx):
        from hachoir.core import timeout
        clock = Clock()
        kernel = Kernel(clock, ctx, plan["stalls"])
        seams.env.clock, seams.env.kernel = clock, kernel
        alarms = []
        due = None

        def app_handler(signum, frame):
            alarms.append(clock.now)

        if plan["app"] or plan["handler"]:
            kernel.handlers[signal.SIGALRM] = app_handler
        kernel.start("hachoir/core/timeout.py")
        if plan["app"]:
            due = clock.now + plan["app"][0]
            kernel.deadline = due
        first = []                  # times before which no limit expires
        limits = []                 # (end of the limit, signals delivered before)

        def late():
            for end, delivered, stalled in limits:
                if kernel.delivered == delivered and \
                        clock.now > end + 1.01 + kernel.stalled - stalled:
                    raise Violation("not-interrupted", "still running at %.1f: the limit "
                                    "was at %.1f" % (clock.now - 1000, end - 1000))

        def work(dt):
            late()
            kernel.work(dt)
            late()

        def limit(second, ops, depth):
            ctx.op("limit", second, depth)
            length = max(1, math.ceil(second))
            before = kernel.getsignal(signal.SIGALRM)
            t0 = clock.now
            s0 = kernel.stalled
            first.append(t0 + length)
            calls = []
            delivered = kernel.delivered
            was_armed = kernel.deadline

            def func(a, b=0):
                calls.append((a, b))
                limits.append((clock.now + length, kernel.delivered, kernel.stalled))
                try:
                    run(ops, depth + 1)
                finally:
                    limits.pop()
                return ("result", second)
            what = "returned"
            try:
                got = timeout.limitedTime(second, func, 1, b=2)
                if got != ("result", second):
                    raise Violation("wrong-result", repr(got))
            except timeout.Timeout as err:
                what = "timeout"
                ctx.probe("timeouts")
                ends = first + ([due] if due is not None else [])
                if not hasattr(err, "checked") and clock.now < min(ends) - 0.01 - kernel.stalled:
                    raise Violation("too-early", "Timeout after %.2f s, limit %s" % (
                        clock.now - t0, second))
                err.checked = True
                raise
            except BodyError:
                what = "error"
                raise
            finally:
                first.pop()
                if what != "timeout" and calls != [(1, 2)]:
                    raise Violation("calls", "function called with %s" % calls)
                now = kernel.getsignal(signal.SIGALRM)
                if now is not before:
                    raise Violation("handler-left", "handler of SIGALRM: %r, it was %r" % (
                        now, before))
                if kernel.deadline is not None and was_armed is None:
                    raise Violation("alarm-left", "an alarm is left after the call")
                if was_armed is not None and kernel.deadline is None \
                        and not kernel.pending and kernel.delivered == delivered:
                    raise Violation("alarm-lost", "the alarm which was set before the call "
                                    "is lost")
                if was_armed is not None and kernel.deadline is not None and \
                        kernel.deadline > max(was_armed, clock.now) + 1.01 + kernel.stalled - s0:
                    raise Violation("alarm-late", "the alarm which was set before the call "
                                    "is %.1f s late" % (kernel.deadline - was_armed))
                ctx.event(what, round(clock.now, 3))

        def run(ops, depth):
            for op in ops:
                if op[0] == "work":
                    work(op[1])
                elif op[0] == "raise":
                    raise BodyError()
                elif op[0] == "swallow":
                    try:
                        run(op[1], depth)
                    except Violation:
                        raise
                    except Exception:
                        ctx.probe("swallowed")
                else:
                    if depth:
                        ctx.probe("nested")
                    limit(op[1], op[2], depth)

        try:
            for op in plan["body"]:
                try:
                    run([op], 0)
                except (timeout.Timeout, BodyError):
                    pass
            if due is not None:
                try:
                    kernel.work(max(0, due - clock.now) + 3 + kernel.stalled)
                except timeout.Timeout:
                    raise Violation("handler-left", "Timeout raised after the calls")
                if not alarms and kernel.delivered == 0:
                    raise Violation("alarm-lost", "the alarm of the application was lost")
                if alarms and alarms[0] < due - 0.01 - kernel.stalled:
                    raise Violation("alarm-early", "alarm of the application at %.2f instead "
                                    "of %.2f" % (alarms[0], due))
        finally:
            kernel.stop()
            seams.env.clock = seams.env.kernel = None
        ctx.state(ctx.probes.get("timeouts", 0), ctx.probes.get("nested", 0), kernel.points,
                  len(alarms))

    def simplify(self, plan):
        def smaller(ops):
            for i, op in enumerate(ops):
                yield ops[:i] + ops[i + 1:]
                if op[0] in ("limit", "swallow"):
                    for s in smaller(op[-1]):
                        yield ops[:i] + [op[:-1] + [s]] + ops[i + 1:]
        for s in smaller(plan["body"]):
            yield dict(plan, body=s)
        if plan["app"]:
            yield dict(plan, app=None)

    def nontrivial(self, plan, summary):
        return bool(summary["probes"].get("timeouts") or summary["probes"].get("nested"))


# ------------------------------------------------------------------------ T02

class Limits:
    """Resource limits of a process"""

    def __init__(self, ctx, soft, hard, root, faults):
        self.ctx = ctx
        self.soft = soft
        self.hard = hard
        self.root = root
        self.faults = dict(map(tuple, faults))
        self.calls = 0
        self.sets = []
        self.enabled = True

    def fault(self):
        n = self.calls
        self.calls += 1
        kind = self.faults.get(n) if self.enabled else None
        if kind:
            self.ctx.fault(kind)
            if kind == "ValueError":
                raise ValueError("not allowed to raise maximum limit (simulated)")
            raise OSError(errno.EPERM, "Operation not permitted (simulated)")

    def getrlimit(self, which):
        import resource
        if which != resource.RLIMIT_AS:
            return seams.real.getrlimit(which)
        self.fault()
        return (self.soft, self.hard)

    def setrlimit(self, which, limits):
        import resource
        if which != resource.RLIMIT_AS:
            raise core.HarnessError("limit %s is not simulated" % which)
        soft, hard = limits
        for v in (soft, hard):
            if not isinstance(v, int):
                raise TypeError("an integer is required")
            if not -(1 << 63) <= v < 1 << 63:
                raise OverflowError("Python int too large to convert to C long")
        self.fault()
        inf = 1 << 64
        s, h, old = (inf if v < 0 else v for v in (soft, hard, self.hard))
        if s > h:
            raise ValueError("current limit exceeds maximum limit")
        if h > old and not self.root:
            raise ValueError("not allowed to raise maximum limit")
        self.sets.append((soft, hard))
        self.soft, self.hard = soft, hard


class T02(Prop):
    id = "T02"
    title = "A function run with a memory limit leaves the limits as they were"
    runs = {"quick": 8000, "thorough": 400000}
    lists = ("body", "faults")
    method = ("simulated resource limits and process size, seeded failures of the system calls "
              "and of allocations")
    rule = ("One run: nested calls with memory limits in a process with any soft and hard "
            "limit, privileged or not, whose functions return, fail or run out of memory, and "
            "whose system calls fail. Non-trivial: a limit was set.")
    real = ["hachoir.core.memory"]
    stubs = ["getrlimit, setrlimit", "/proc/self/statm"]

    def gen(self, rng, index, tier):
        big = [64 << 20, 200 << 20, 1 << 30, 6 << 30, 1 << 40, 1 << 52, (1 << 63) - 1]
        hard = rng.pick([-1, -1] + big)
        soft = rng.pick([-1, hard] + big)
        if hard >= 0 and (soft < 0 or soft > hard):
            soft = hard

        def body(depth):
            out = []
            for _ in range(rng.pick([1, 1, 2])):
                k = rng.randrange(8)
                if k < 3 and depth < 4:
                    out.append(["limit", rng.pick([0, 4096, 1 << 20, 50 << 20, 1 << 34]),
                                body(depth + 1)])
                elif k < 5:
                    out.append(["alloc", rng.pick([100, 1 << 16, 10 << 20, 1 << 31])])
                elif k == 5:
                    out.append(["raise"])
                elif k == 6:
                    out.append(["free", rng.pick([100, 1 << 20])])
            return out
        return {"soft": soft, "hard": hard, "root": rng.chance(0.5),
                "size": rng.pick([5000, 30000, 100]),
                "statm": rng.pick(["ok", "ok", "ok", "missing"]),
                "body": [["limit", rng.pick([1 << 20, 50 << 20]), body(1)]],
                "faults": [[rng.randrange(5), rng.pick(["ValueError", "OSError"])]
                           for _ in range(rng.pick([0, 0, 0, 1, 2]))]}

    def run(self, plan, ctx):
        from hachoir.core import memory
        from resource import getpagesize
        page = getpagesize()
        limits = Limits(ctx, plan["soft"], plan["hard"], plan["root"], plan["faults"])
        size = [plan["size"] * page]

        class Proc:
            def handles(self, path):
                return path == "/proc/self/statm"

            def open(self, path, *args, **kw):
                if plan["statm"] == "missing":
                    ctx.fault("statm_missing")
                    raise FileNotFoundError(errno.ENOENT, "No such file (simulated)")
                return io.StringIO("%d 10 10 1 0 1 0\n" % (size[0] // page))

        seams.env.limits, seams.env.fs = limits, Proc()

        def bound(v):
            return math.inf if v < 0 else v

        def limit(n, ops, depth):
            ctx.op("limit", n, limits.soft, limits.hard, size[0])
            before = (limits.soft, limits.hard)
            start = size[0] // page * page
            calls = []

            def func(a, b=None):
                calls.append((a, b))
                # from here on, the system calls which restore the limit work
                fired = sum(limits.faults.get(k) is not None for k in range(limits.calls))
                limits.enabled = False
                if bound(limits.soft) > bound(before[0]):
                    raise Violation("loosened", "limit %s while it was %s" % (
                        limits.soft, before[0]))
                wanted = start + n
                if plan["statm"] == "ok" and not fired:
                    if bound(limits.soft) > max(wanted, 0):
                        raise Violation("not-limited", "limit %s instead of %s" % (
                            limits.soft, wanted))
                    if bound(limits.soft) < min(wanted, bound(before[0])):
                        raise Violation("too-strict", "limit %s instead of %s" % (
                            limits.soft, wanted))
                    ctx.probe("limited")
                if limits.hard != before[1]:
                    raise Violation("hard-limit", "hard limit %s, it was %s" % (
                        limits.hard, before[1]))
                run(ops, depth + 1)
                return ("result", n)
            try:
                got = memory.limitedMemory(n, func, 1, b=2)
                if got != ("result", n):
                    raise Violation("wrong-result", repr(got))
            except (BodyError, MemoryError) as err:
                ctx.probe(type(err).__name__)
                raise
            except Violation:
                raise
            except Exception as err:
                raise Violation("internal-error", "%s: %s" % (type(err).__name__, err))
            finally:
                if sys.exc_info()[0] is not Violation:
                    if calls != [(1, 2)]:
                        raise Violation("calls", "function called with %s" % calls)
                    if (limits.soft, limits.hard) != before:
                        raise Violation("not-restored", "limits %s instead of %s" % (
                            (limits.soft, limits.hard), before))

        def run(ops, depth):
            for op in ops:
                if op[0] == "limit":
                    limit(op[1], op[2], depth)
                elif op[0] == "raise":
                    raise BodyError()
                elif op[0] == "free":
                    size[0] = max(page, size[0] - op[1])
                else:
                    if size[0] + op[1] > bound(limits.soft):
                        ctx.fault("allocation")
                        raise MemoryError()
                    size[0] += op[1]

        try:
            for op in plan["body"]:
                try:
                    run([op], 0)
                except (BodyError, MemoryError):
                    pass
        finally:
            seams.env.limits = seams.env.fs = None
        ctx.state(len(limits.sets), ctx.probes.get("limited", 0), plan["soft"] < 0,
                  plan["hard"] < 0)

    simplify = T01.simplify

    def simplify(self, plan):
        for p in T01.simplify(self, dict(plan, app=None)):
            p.pop("app")
            yield p
        for key, v in (("soft", -1), ("hard", -1), ("statm", "ok")):
            if plan[key] != v:
                p = dict(plan)
                p[key] = v
                if key == "soft" and plan["hard"] >= 0:
                    continue
                yield p

    def nontrivial(self, plan, summary):
        return summary["probes"].get("limited", 0) > 0


# ------------------------------------------------------------------------ B01

class B01(Prop):
    id = "B01"
    title = "The benchmark gives correct statistics under any clock"
    runs = {"quick": 10000, "thorough": 400000}
    lists = ("times", "jumps")
    method = "simulated clock: coarse ticks, jumps backwards and forwards, seeded durations"
    rule = ("One run: a function whose durations are the ones of the plan is measured on a "
            "clock which has coarse ticks and jumps. Calls and statistics must be the ones "
            "which the clock shows. Non-trivial: two calls.")
    real = ["hachoir.core.benchmark"]
    stubs = ["clock", "measured function"]

    def gen(self, rng, index, tier):
        unit = rng.pick([0.001, 0.01, 0.3, 1.0, 6.0])
        return {"max_time": rng.pick([0, 0.5, 1.0, 2.0, 5.0]),
                "min_count": rng.pick([0, 1, 2, 5, 9]),
                "max_count": rng.pick([None, None, 1, 2, 7, 30]),
                "progress": rng.pick([0.1, 0.25, 1.0, 3.0]),
                "verbose": rng.chance(0.4), "disable_gc": rng.chance(0.5),
                "gc": rng.chance(0.5),
                "tick": rng.pick([0, 0, 1e-6, 0.015625, 1.0]),
                "times": [rng.pick([0.0, unit, unit * (0.1 + rng.random() * 2), unit * 10])
                          for _ in range(rng.pick([1, 3, 10]))],
                "raise": rng.pick([None, None, None, 0, 1, 3]),
                "jumps": [[rng.randrange(12), rng.pick([-3600, -1, -0.01, 1, 3600])]
                          for _ in range(rng.pick([0, 0, 1, 2]))]}

    def run(self, plan, ctx):
        from hachoir.core.benchmark import Benchmark, BenchmarkError
        clock = Clock(ctx)
        jumps = {}
        for k, v in plan["jumps"]:
            jumps[k] = jumps.get(k, 0) + v
        tick = plan["tick"]
        reads = []

        class Ticks:
            def read(self, t):
                t = math.floor(t / tick) * tick if tick else t
                reads.append(t)
                return t

            def time(self):
                return self.read(clock.time())

            def monotonic(self):
                return self.read(clock.monotonic())
            perf_counter = process_time = monotonic
            sleep = clock.sleep

        shown = []
        bench = Benchmark(max_time=plan["max_time"], min_count=plan["min_count"],
                          max_count=plan["max_count"], progress_time=plan["progress"])
        bench.verbose = plan["verbose"]
        bench.disable_gc = plan["disable_gc"]
        # the numbers which are displayed, before they are rounded
        bench.formatTime = lambda value: shown.append(value) or "T"
        calls = []
        diffs = []
        states = []

        def func(x, y=0):
            n = len(calls)
            if n > 200000:
                first = reads[diffs[0] + 1] - reads[diffs[0]]
                if 0 < first < max(plan["max_time"], 1.0) / 100000:
                    # so many calls are needed because the first one seemed short
                    raise Enough()
                raise Violation("no-progress", "more than 200000 calls")
            calls.append((x, y))
            states.append(gc.isenabled())
            if (x, y) != (1, 2):
                raise Violation("calls", repr((x, y)))
            start = len(reads)
            if plan["raise"] == n:
                raise BodyError()
            if n in jumps:
                ctx.fault("clock_jump")
                clock.jump(jumps[n])
            clock.advance(plan["times"][n % len(plan["times"])])
            diffs.append(start - 1)

        if plan["gc"]:
            gc.enable()
        out = io.StringIO()
        real_out, sys.stdout = sys.stdout, out
        seams.env.clock = Ticks()
        what = "ok"

        class Enough(BaseException):
            pass

        try:
            bench.run(func, 1, y=2)
        except Enough:
            what = "enough"
        except BenchmarkError as err:
            what = "BenchmarkError"
        except BodyError:
            what = "BodyError"
        except Violation:
            raise
        except Exception as err:
            raise Violation("internal-error", "%s: %s" % (type(err).__name__, err))
        finally:
            seams.env.clock = None
            sys.stdout = real_out
            enabled = gc.isenabled()
            gc.disable()
        ctx.op(what, len(calls), tick)
        if what == "enough":
            return
        if enabled != plan["gc"]:
            raise Violation("gc-state", "garbage collector %s after the benchmark" % (
                "enabled" if enabled else "disabled"))
        if plan["disable_gc"] and any(states):
            raise Violation("gc-state", "garbage collector enabled while measuring")
        if (plan["raise"] is not None and plan["raise"] < len(calls)) != (what == "BodyError"):
            raise Violation("error-lost", "error of the function: %s" % what)
        # what the clock showed around each call
        values = [reads[k + 1] - reads[k] for k in diffs]
        low = max(plan["min_count"], 1)
        high = plan["max_count"] or math.inf
        if what != "BodyError" and not min(low, high) <= len(calls) <= high:
            raise Violation("number-of-calls", "%d calls, min_count=%s max_count=%s" % (
                len(calls), plan["min_count"], plan["max_count"]))
        if what == "BenchmarkError" and sum(values):
            raise Violation("refused", "statistics %s are refused" % short(values))
        if what == "ok":
            want = (min(values), sum(values) / len(values), max(values), sum(values))
            got = shown[-4:]
            if any(abs(a - b) > 1e-6 * (1 + abs(b)) for a, b in zip(got, want)) \
                    or len(got) != 4:
                raise Violation("wrong-statistics", "%s instead of %s" % (got, list(want)))
            ctx.probe("statistics")
        # the whole duration is limited by max_time, when calls are regular
        if what == "ok" and len(set(plan["times"])) == 1 and not plan["jumps"] and \
                len(calls) > low and sum(values) > max(plan["max_time"], 1.0) * 1.5 + 2 * tick:
            if not tick:
                raise Violation("too-long", "%s calls, %.1f s" % (len(calls), sum(values)))
        ctx.state(what, min(len(calls), 40), tick)

    def simplify(self, plan):
        for key, v in (("verbose", False), ("disable_gc", False), ("gc", False), ("tick", 0),
                       ("raise", None), ("max_count", None), ("min_count", 1)):
            if plan[key] != v:
                yield dict(plan, **{key: v})
        if len(plan["times"]) > 1:
            yield dict(plan, times=plan["times"][:1])

    def nontrivial(self, plan, summary):
        return summary["probes"].get("statistics", 0) > 0


# ------------------------------------------------------------------------ L01

LOG = ROOT + "/log/hachoir.log"


class L01(Prop):
    id = "L01"
    title = "The log keeps every message in order, and its faults do not reach its users"
    runs = {"quick": 8000, "thorough": 300000}
    lists = ("ops", "faults")
    method = "seeded messages on a simulated disk and terminal which fail"
    rule = ("One run: messages of all levels are logged, options are changed, on a log file, a "
            "terminal and a callback; the file system and the terminal fail as the plan says. "
            "Non-trivial: three messages are in a sink.")
    real = ["hachoir.core.log", "hachoir.core.config", "codecs, io"]
    stubs = ["file system of the log", "standard error", "clock"]

    def gen(self, rng, index, tier):
        ops = []
        words = ["abc", "a b", "\xe9t\xe9", "\u4e2d\u6587", "two\nlines", "", "\udcff\ud800",
                 "x" * 9000, "%s %d", "\0"]
        for _ in range(rng.pick([2, 6, 15, 40])):
            k = rng.randrange(12)
            if k < 9:
                ops.append(["msg", rng.randrange(3), rng.pick(["log", "log", "field", "anon"]),
                            rng.pick(words)])
            elif k == 9:
                ops.append(["set", rng.pick(["quiet", "verbose", "debug"]), rng.chance(0.5)])
            elif k == 10:
                ops.append(["file", rng.pick(["dir", "dir", "nodir", "isdir"])])
            else:
                ops.append(["sink", rng.pick(["print", "callback", "buffer"]),
                            rng.chance(0.6)])
        return {"start": rng.chance(0.8), "old": rng.pick([None, "old line\n"]),
                "ops": ops, "end": rng.chance(0.5),
                "space": rng.pick([None, None, None, 0, 40, 300, 9000]),
                "faults": gen_faults(rng, ["write", "write", "open"], span=20)
                if rng.chance(0.4) else [],
                "spell": rng.pick(["", "", "~", "dots"]),
                "stderr": rng.pick([None, None, None, 0, 2, 9])}

    def run(self, plan, ctx):
        from hachoir.core import config
        from hachoir.core.log import Log, Logger
        from hachoir.core import log as module
        fs = SimFS(ctx, plan["faults"], plan["space"])
        fs.files[ROOT + "/log"] = None
        old = (plan["old"] or "").encode()
        if plan["old"]:
            fs.write_file(LOG, old)
        seams.env.fs, seams.env.clock = fs, Clock()
        config.quiet = config.verbose = config.debug = False
        log = Log()
        module.log = log
        seen, want_seen, want_err, want_file = [], [], [], []
        asked = False

        class Terminal(io.RawIOBase):
            text = bytearray()
            n = 0

            def writable(self):
                return True

            def write(self, data):
                k = self.n
                self.n += 1
                if plan["stderr"] is not None and k >= plan["stderr"]:
                    ctx.fault("stderr_eio")
                    raise OSError(errno.EIO, "Input/output error (simulated)")
                self.text += bytes(data)
                return len(data)

        term = Terminal()
        real_err = sys.stderr
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(term), "utf-8", "backslashreplace",
                                      line_buffering=True)

        class Thing(Logger):
            name = "thing"

            def _logger(self):
                return self.name

        thing, anon = Thing(), Thing()
        anon.name = None
        callback = False
        use_print = True

        def spell(path):
            if plan["spell"] == "~":
                os.environ["HOME"] = ROOT
                return path.replace(ROOT, "~")
            if plan["spell"] == "dots":
                return path.replace("/log/", "//log/./../log/")
            return path

        def setfile(path):
            nonlocal asked
            log.setFilename(spell(path))
            if path == LOG:
                asked = True
            return path == LOG

        try:
            try:
                file_on = plan["start"] and setfile(LOG)
                for op in plan["ops"]:
                    clock = seams.env.clock
                    clock.advance(1.5)
                    ctx.op(*op)
                    if op[0] == "set":
                        setattr(config, op[1], op[2])
                    elif op[0] == "file":
                        if op[1] == "dir":
                            file_on = setfile(LOG)
                        elif not file_on:
                            setfile(ROOT + ("/none/x.log" if op[1] == "nodir" else "/log"))
                    elif op[0] == "sink":
                        if op[1] == "print":
                            log.use_print = use_print = op[2]
                        elif op[1] == "buffer":
                            log.use_buffer = op[2]
                        else:
                            callback = op[2]
                            log.on_new_message = (lambda level, prefix, text, ctxt: seen.append(
                                (level, prefix, text, ctxt))) if op[2] else None
                    else:
                        level, who, text = op[1:]
                        target = {"log": log, "field": thing, "anon": anon}[who]
                        (target.info, target.warning, target.error)[level](text)
                        if level < 2 and config.quiet or level == 0 and not config.verbose:
                            continue
                        prefix = ("[info]", "[warn]", "[err!]")[level]
                        line = "%s %s%s" % (prefix, "[thing] " if who == "field" else "", text)
                        if callback:
                            want_seen.append((level, prefix, text, None if who == "log"
                                              else target))
                        if use_print:
                            want_err.append(line)
                        if file_on:
                            want_file.append(line)
                if plan["end"]:
                    log.shutdown()
            except Violation:
                raise
            except Exception as err:
                raise Violation("log-raises", "%s: %s" % (type(err).__name__, err))
        finally:
            try:
                sys.stderr.close()
            except OSError:
                pass
            sys.stderr = real_err
            seams.env.fs = seams.env.clock = None
        fs.enabled = False
        fs.space = None
        seen = [x for x in seen if "setFilename" not in x[2]]
        if [x[:2] for x in seen] != [x[:2] for x in want_seen] or \
                any(a[2] != b[2] or a[3] is not b[3] for a, b in zip(seen, want_seen)):
            raise Violation("callback", "%s instead of %s" % (short(seen), short(want_seen)))
        clean_disk = not fs.fired and not ctx.faults.get("enospc")
        content = bytes(fs.files.get(LOG) or b"")
        if not content.startswith(old):
            raise Violation("log-truncated", "the previous messages are lost")
        text = content[len(old):].decode("utf-8", "replace")
        self.check(text, want_file, clean_disk, "file")
        if plan["stderr"] is None:
            self.check(bytes(term.text).decode(), want_err, True, "stderr")
        elif not plan["stderr"] == 0:
            self.check(bytes(term.text).decode(), want_err, False, "stderr")
        if clean_disk and want_file:
            ctx.probe("file.complete")
        if len(seen) + len(want_err) + len(want_file) > 3:
            ctx.probe("messages")
        ctx.state(len(want_file), len(want_err), len(fs.fired), clean_disk)

    @staticmethod
    def check(text, want, complete, where):
        """Messages are in the text, in order; all of them if complete"""
        pos = 0
        for n, line in enumerate(want):
            line = line.encode("utf-8", "backslashreplace").decode()
            k = text.find(line + "\n", pos)
            if k < 0:
                if complete:
                    raise Violation("message-lost", "%s: message %d, %s, is not in %s" % (
                        where, n, short(line), short(text[pos:])))
                continue
            pos = k + len(line) + 1
        total = sum(text.count("\n%s" % p) + text.startswith(p)
                    for p in ("[info]", "[warn]", "[err!]")) - text.count("[info] [Log] setFilename")
        if where == "stderr" and complete and total != len(want):
            raise Violation("message-twice", "%d messages on stderr instead of %d" % (
                total, len(want)))

    def simplify(self, plan):
        for key, v in (("space", None), ("stderr", None), ("end", False), ("old", None)):
            if plan[key] != v:
                yield dict(plan, **{key: v})

    def nontrivial(self, plan, summary):
        return summary["probes"].get("messages", 0) > 0
