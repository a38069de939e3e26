"""Deterministic simulation core: seeded plans, forked runs, step budget,
minimisation, replay files, known findings and evidence.

One run = one plan.  A plan is a JSON value derived from one integer
(VERIF_SEED, property, index) before anything is executed; it holds every
choice: inputs, operations, schedule, faults.  Executing a plan is a pure
function of the plan and of the code under test, so a plan is a replay file.

Every run is executed in a process forked from a pristine zygote, so no run
sees what another left behind (class attributes, caches, patched modules).
"""
import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
from simkit import seams
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HACHOIR_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
SOFT_DEADLINE = 720        # s: no new run is started after that
UNLIMITED = resource.getrlimit(resource.RLIMIT_AS)[1]
RUN_WALL = 150             # s: a single run taking longer is a harness error
DEFAULT_STEPS = 40_000_000  # loop iterations of the code under test


class Violation(Exception):
    """The property does not hold. kind: stable class of the failure."""

    def __init__(self, kind, msg):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class StepBudget(BaseException):
    """The code under test ran too many loop iterations: no progress."""


class HarnessError(Exception):
    pass


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


class Rng(random.Random):
    """random.Random seeded by a string, with some helpers."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, table):
        """table: list of (weight, value)"""
        total = sum(w for w, _ in table)
        x = self.random() * total
        for w, v in table:
            x -= w
            if x < 0:
                return v
        return table[-1][1]

    def bytes_(self, n):
        return self.randbytes(n)


def make_rng(*key):
    return Rng(hashlib.sha256(repr(key).encode()).hexdigest())


# --------------------------------------------------------------- step budget

class Steps:
    """Counts loop iterations of the code under test with sys.monitoring, and
    raises StepBudget in it when the budget is used up: a deterministic
    notion of time, used for bounded termination and as simulated time."""
    TOOL = 3

    def __init__(self):
        self.count = 0
        self.limit = None
        self.on = False

    def start(self, limit):
        mon = sys.monitoring
        self.limit = self.count + limit
        if self.on:
            return
        self.on = True
        prefix = os.path.join(REPO, "hachoir")
        mon.use_tool_id(self.TOOL, "simkit")

        def jump(code, src, dst):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.count += 1
            if self.count > self.limit:
                raise StepBudget()
        # backward jumps (loops) and calls of Python functions
        mon.register_callback(self.TOOL, mon.events.JUMP, jump)
        mon.set_events(self.TOOL, mon.events.JUMP)

    def stop(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False


# ------------------------------------------------------------------- context

class Ctx:
    """What one run records: fault counts, probes, states, events."""

    def __init__(self, verbose=False):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.ops = 0
        self.steps = Steps()
        self._h = hashlib.sha256()
        self.verbose = verbose
        self.known = []          # known findings met by this run

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.event("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def event(self, *args):
        s = repr(args)
        self._h.update(s.encode("utf8", "backslashreplace"))
        if self.verbose:
            print("  " + short(s, 600))

    def op(self, *args):
        self.ops += 1
        self.event(*args)

    def summary(self):
        return dict(faults=self.faults, probes=self.probes,
                    states=sorted(self.states), simtime=self.simtime,
                    ops=self.ops, steps=self.steps.count,
                    digest=self._h.hexdigest(), known=self.known)


# ------------------------------------------------------------------ property

class Prop:
    id = None
    technique = "deterministic simulation, seeded search over schedules and faults"
    runs = {"quick": 500, "thorough": 10000}
    rule = ""
    method = "seeded schedules and faults against a reference model"
    real = []
    stubs = []
    assumptions = []
    steps = DEFAULT_STEPS
    wall = RUN_WALL
    no_progress_kind = "no-progress"
    mem = 6 << 30
    mem_limited = True
    memory_ok = False          # runs which exhaust memory are not judged
    memory_kind = None         # kind of violation when memory is exhausted

    def setup(self):
        """Called once in the zygote, before any fork."""

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def nontrivial(self, plan, summary):
        return summary["ops"] > 0

    # Keys of the plan which are lists that the minimiser may shorten
    lists = ("ops", "faults")

    def simplify(self, plan):
        """Yield simpler plans (besides removal of list items)."""
        return ()

    def fixed_plans(self):
        """Plans which are always run, before the seeded search."""
        return ()

    def finding_key(self, plan, res):
        """Key which identifies a known finding (see Known)."""
        return None

    def sample(self, plan):
        return short(json.dumps(plan), 1500)


def execute(prop, plan, verbose=False):
    """Execute a plan in this process. Returns a result dict."""
    ctx = Ctx(verbose)
    res = {"status": "ok"}
    try:
        ctx.steps.start(prop.steps)
        try:
            prop.run(plan, ctx)
        finally:
            ctx.steps.stop()
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "msg": short(v.msg, 1500)}
    except StepBudget:
        res = {"status": "violation", "kind": prop.no_progress_kind,
               "msg": "no progress: more than %d loop iterations" % prop.steps,
               "tb": traceback.format_exc()[-1500:]}
    except BaseException as err:
        if prop.mem_limited:
            # room to report
            seams.real.setrlimit(resource.RLIMIT_AS, (UNLIMITED, UNLIMITED))
        if isinstance(err, MemoryError) and prop.memory_kind:
            res = {"status": "violation", "kind": prop.memory_kind,
                   "msg": "more than %d MB of memory" % (prop.mem >> 20)}
        elif isinstance(err, MemoryError) and prop.memory_ok:
            # (Another check judges this)
            res = {"status": "ok"}
            ctx.probe("memory.exhausted")
        else:
            res = {"status": "harness", "kind": "harness-" + type(err).__name__,
                   "msg": short(repr(err)), "tb": traceback.format_exc()[-3000:]}
    if prop.mem_limited:
        seams.real.setrlimit(resource.RLIMIT_AS, (UNLIMITED, UNLIMITED))
    res.update(ctx.summary())
    return res


def forked(prop, plan, wall=None):
    """Execute a plan in a forked child."""
    wall = wall or prop.wall
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            seams.real.setrlimit(resource.RLIMIT_AS, (prop.mem, UNLIMITED))
            gc.disable()
            res = execute(prop, plan)
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = seams.real.monotonic() + wall
    timeout = False
    while True:
        left = end - seams.real.monotonic()
        if left <= 0:
            timeout = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(r)
    if timeout:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timeout:
        return {"status": "harness", "kind": "wall-timeout",
                "msg": "run took more than %s s" % wall}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"status": "harness", "kind": "child-died",
                "msg": "child died, status %s" % status}


# -------------------------------------------------------------------- batch

def worker(prop, tier, seed, indices, wfd, stop_r, start):
    """Run the plans of indices, write one JSON line per run on wfd."""
    out = os.fdopen(wfd, "w")
    for index in indices:
        if seams.real.monotonic() - start > SOFT_DEADLINE:
            break
        if select.select([stop_r], [], [], 0)[0]:
            break
        plan = prop.gen(make_rng(seed, prop.id, index), index, tier)
        t = seams.real.monotonic()
        res = forked(prop, plan)
        res["index"] = index
        res["wall"] = seams.real.monotonic() - t
        res["nontrivial"] = bool(res["status"] == "ok" and prop.nontrivial(plan, res))
        if res["status"] != "ok" or index < 3:
            res["plan"] = plan
        out.write(json.dumps(res) + "\n")
        out.flush()
    out.close()


def batch(prop, tier, seed, nruns, jobs, start, known, enough=6):
    """Run the batch on several processes; yields results."""
    stop_r, stop_w = os.pipe()
    fds = {}
    pids = []
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                os.close(stop_w)
                for fd in fds:
                    os.close(fd)
                worker(prop, tier, seed, range(w, nruns, jobs), wfd, stop_r, start)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
            os._exit(0)
        os.close(wfd)
        fds[r] = b""
        pids.append(pid)
    results = []
    bad = 0
    stopped = False
    while fds:
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if not data:
                os.close(fd)
                del fds[fd]
                continue
            lines = (fds[fd] + data).split(b"\n")
            fds[fd] = lines.pop()
            for line in lines:
                res = json.loads(line)
                if res["status"] == "violation":
                    res["finding"] = known.match(prop, res)
                    if res["finding"] is None:
                        bad += 1
                results.append(res)
        if bad >= enough and not stopped:
            os.write(stop_w, b"x" * jobs)
            stopped = True
    codes = [os.waitpid(pid, 0)[1] for pid in pids]
    os.close(stop_w)
    os.close(stop_r)
    if any(codes):
        results.append({"status": "harness", "kind": "worker-died", "index": -1,
                        "msg": str(codes), "wall": 0})
    return results


# ------------------------------------------------------------- minimisation

def minimise(prop, plan, kind, budget_s=60, max_execs=600):
    """Shrink a failing plan while the same kind of violation persists."""
    end = seams.real.monotonic() + budget_s
    execs = 0

    def fails(p):
        nonlocal execs
        execs += 1
        res = forked(prop, p)
        return res["status"] == "violation" and res["kind"] == kind

    def left():
        return seams.real.monotonic() < end and execs < max_execs

    changed = True
    while changed and left():
        changed = False
        for key in prop.lists:
            items = plan.get(key)
            if not isinstance(items, list) or not items:
                continue
            size = len(items)
            while size >= 1 and left():
                pos = 0
                while pos < len(plan[key]) and left():
                    cand = dict(plan)
                    cand[key] = plan[key][:pos] + plan[key][pos + size:]
                    if fails(cand):
                        plan = cand
                        changed = True
                    else:
                        pos += size
                size //= 2
        for cand in prop.simplify(plan):
            if not left():
                break
            if fails(cand):
                plan = cand
                changed = True
                break
    return plan, execs


# ------------------------------------------------------------ known findings

class Known:
    """known_findings.json: genuine defects which are not repaired.

    {"findings": [{"property": ID, "id": name, "what": text,
                   "kind": violation kind, "match": {plan key: value...},
                   "plan": plan that shows it}],
     "fixed": ["fixed: property=ID commit what"]}
    A finding suppresses a violation of that property only if its kind is the
    same and if prop.finding_key(plan, result) is the key of the finding."""

    def __init__(self):
        path = os.path.join(VERIF, "known_findings.json")
        try:
            with open(path) as f:
                self.data = json.load(f)
        except FileNotFoundError:
            self.data = {"findings": []}

    def of(self, prop):
        return [f for f in self.data["findings"] if f["property"] == prop.id]

    def match(self, prop, res):
        for f in self.of(prop):
            if f["kind"] == res["kind"] \
                    and prop.finding_key(res.get("plan"), res) == f["key"]:
                return f["id"]
        return None


# ------------------------------------------------------------------ commands

def replay_cmd(path):
    return "bash %s/check replay %s" % (VERIF, path)


def write_replay(prop, plan, res, seed, tier, index, execs):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%s-%s.json" % (prop.id, tier, seed, index))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "tier": tier, "index": index,
                   "kind": res["kind"], "msg": res["msg"],
                   "digest": res.get("digest"), "minimiser_runs": execs,
                   "plan": plan}, f, indent=1)
    return path


def run_check(prop, tier, seed, jobs=None, nruns=None):
    start = seams.real.monotonic()
    jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 1
    nruns = nruns or prop.runs[tier]
    print("check %s tier=%s seed=%s runs=%s jobs=%s repo=%s"
          % (prop.id, tier, seed, nruns, jobs, REPO))
    sys.stdout.flush()
    gc.collect()
    gc.freeze()
    prop.setup()
    gc.collect()
    gc.freeze()
    known = Known()
    exit_code = 0

    # 1. Known findings: each one is replayed, and must still fail
    for f in known.of(prop):
        res = forked(prop, f["plan"])
        if res["status"] == "violation":
            res["plan"] = f["plan"]
            if known.match(prop, res) == f["id"]:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop.id, f["id"], f["what"]))
            else:
                print("finding %s fails in another way: %s" % (f["id"], res["msg"]))
        else:
            print("finding %s does not fail any more (%s)" % (f["id"], res["status"]))

    # 2. Regression plans, then seeded search
    results = []
    for i, plan in enumerate(prop.fixed_plans()):
        res = forked(prop, plan)
        res.update(index=-1000 - i, wall=0, plan=plan, nontrivial=True)
        if res["status"] == "violation":
            res["finding"] = known.match(prop, res)
        results.append(res)
    results += batch(prop, tier, seed, nruns, jobs, start, known)
    search_wall = seams.real.monotonic() - start

    # 3. Determinism self-check: some runs are executed again, one by one, in
    # a fresh interpreter with another hash seed
    again = [r for r in results if r["status"] == "ok" and r["index"] >= 0]
    again.sort(key=lambda r: r["index"])
    nagain = 12 if tier == "quick" else 60
    step = max(1, len(again) // nagain)
    again = again[::step][:nagain]
    nondet = []
    if again and not any(r["status"] == "violation" for r in results):
        cmd = [sys.executable, "-B", os.path.join(VERIF, "main.py"), "digest",
               prop.id, tier, str(seed)] + [str(r["index"]) for r in again]
        env = dict(os.environ, PYTHONHASHSEED="12345", SIMKIT_HASHSEED="12345")
        try:
            out = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, timeout=300)
            got = json.loads(out.stdout)
            for r in again:
                if got[str(r["index"])] != r["digest"]:
                    nondet.append(r["index"])
        except Exception as err:
            nondet.append("self-check failed: %r" % err)

    # 4. Report
    viol = [r for r in results if r["status"] == "violation"]
    new = [r for r in viol if r.get("finding") is None]
    harness = [r for r in results if r["status"] == "harness"]
    new.sort(key=lambda r: r["index"])
    seen = set()
    nreported = 0
    for res in new:
        if res["kind"] in seen:
            continue
        seen.add(res["kind"])
        if nreported >= 3:
            break
        plan, execs = res["plan"], 0
        # the failure must be a function of the plan alone
        check = forked(prop, plan)
        if check["status"] != "violation" or check["kind"] != res["kind"]:
            nondet.append("violation of run %s not reproduced" % res["index"])
            path = write_replay(prop, plan, res, seed, tier, res["index"], 0)
            print("not reproducible: %s %s (%s)" % (res["kind"], res["msg"], path))
            continue
        left = max(5, min(60, SOFT_DEADLINE + 60 - (seams.real.monotonic() - start)))
        plan, execs = minimise(prop, plan, res["kind"], budget_s=left / (nreported + 1))
        final = forked(prop, plan)
        path = write_replay(prop, plan, final, seed, tier, res["index"], execs)
        print("violation of %s: %s\n  %s" % (prop.id, final["kind"], final["msg"]))
        if final.get("tb"):
            print(final["tb"])
        print("  plan: %s" % short(json.dumps(plan), 3000))
        fresh = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "main.py"),
                                "replay", path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        print("  replayed in a fresh process: %s; %s" % (
            "same violation" if fresh.returncode == 1 else
            "NOT reproduced (exit %s)" % fresh.returncode, replay_cmd(path)))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        nreported += 1
        exit_code = 1
    if not exit_code and (harness or nondet):
        exit_code = 2
        for r in harness[:5]:
            print("HARNESS ERROR run %s: %s %s\n%s\n%s" % (
                r.get("index"), r["kind"], r["msg"], r.get("tb", ""),
                short(json.dumps(r.get("plan")), 3000)))
        if nondet:
            print("NONDETERMINISM: %s" % nondet)

    # 5. Evidence
    write_evidence(prop, tier, seed, results, new, start, search_wall, jobs,
                   nruns, len(again), nondet, viol)
    done = [r for r in results if r["index"] >= 0 or r["index"] <= -1000]
    print("%s: %d runs, %d violations (%d known), %d harness errors, %.1f s"
          % (prop.id, len(done), len(viol), len(viol) - len(new), len(harness),
             seams.real.monotonic() - start))
    return exit_code


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def write_evidence(prop, tier, seed, results, new, start, search_wall, jobs,
                   nruns, nagain, nondet, viol):
    faults, probes = {}, {}
    states = set()
    simtime = 0
    ops = steps = 0
    nontrivial = set()
    for r in results:
        merge(faults, r.get("faults", {}))
        merge(probes, r.get("probes", {}))
        states.update(r.get("states", ()))
        simtime += r.get("simtime", 0)
        ops += r.get("ops", 0)
        steps += r.get("steps", 0)
        if r.get("nontrivial"):
            nontrivial.add(r["digest"])
    n = len(results)
    samples = [prop.sample(r["plan"]) for r in results if "plan" in r][:3]
    data = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule + " A run counts once per distinct event log.",
            "runs_planned": nruns,
            "runs_per_hour": int(n / search_wall * 3600) if search_wall else 0,
            "simulated_seconds": simtime,
            "simulated_steps": steps,
            "steps_are": "loop iterations of the code under test (sys.monitoring)",
            "operations": ops,
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": len(states),
            "jobs": jobs,
            "determinism_self_check": {"runs_repeated": nagain,
                                       "diverged": [str(x) for x in nondet]},
            "known_findings_met": len(viol) - len(new),
            "components_real": prop.real,
            "components_stub": prop.stubs,
            "samples": samples or ["(none)"],
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(seams.real.monotonic() - start, 2),
        "violations": len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, "%s.json" % prop.id)
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
    os.replace(path + ".tmp", path)
