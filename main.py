"""Command line of the checks, see DESIGN.md.

main.py ID [quick|thorough]      run the check of a property
main.py replay FILE              execute a replay file, exit 1 if it fails
main.py search ID SEED NRUNS     search with another seed and number of runs
main.py run ID SEED INDEX        execute one run, verbose
main.py digest ID TIER SEED I..  digests of some runs (determinism self-check)
main.py collect ID SEED NRUNS    search without stopping, list the violations
main.py list
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

# The code under test is compiled from its sources on every run
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"

from simkit import seams  # noqa: E402  (before anything imports hachoir)
from simkit import core   # noqa: E402

sys.path.insert(0, core.REPO)


def load(name):
    props = {}
    for mod in sorted(os.listdir(os.path.join(HERE, "props"))):
        if mod.endswith(".py") and mod != "__init__.py":
            path = os.path.join(HERE, "props", mod)
            with open(path) as f:
                src = f.read()
            if name is None or ('id = "%s"' % name) in src:
                m = importlib.import_module("props." + mod[:-3])
                for x in vars(m).values():
                    if isinstance(x, type) and issubclass(x, core.Prop) and x.id:
                        props[x.id] = x
    if name is None:
        return props
    if name not in props:
        sys.exit("unknown property %s" % name)
    return props[name]()


def main():
    args = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not args or args[0] == "list":
        for k, v in sorted(load(None).items()):
            print(k, v.__name__, v.runs)
        return 0
    if args[0] == "hashworker":
        from props.isolation import hash_worker
        return hash_worker()
    if args[0] == "replay":
        with open(args[1]) as f:
            data = json.load(f)
        prop = load(data["property"])
        prop.setup()
        res = core.forked(prop, data["plan"])
        print("%s: %s %s" % (data["property"], res["status"], res.get("kind", "")))
        print(res.get("msg", ""))
        print(res.get("tb", ""))
        if res["status"] == "violation":
            same = (res["kind"] == data["kind"] and res["digest"] == data["digest"])
            print("same violation and same event log as recorded" if same
                  else "differs from what was recorded")
            print("VIOLATION property=%s replay=%s" % (data["property"], args[1]))
            return 1
        return 0 if res["status"] == "ok" else 2
    if args[0] == "search":
        prop = load(args[1])
        core.EVIDENCE = os.environ.get("VERIF_EVIDENCE", "/tmp/simkit-evidence")
        return core.run_check(prop, "thorough", int(args[2]), nruns=int(args[3]))
    if args[0] == "collect":
        import re
        prop = load(args[1])
        prop.setup()
        groups = {}
        results = core.batch(prop, "thorough", int(args[2]), int(args[3]), os.cpu_count(),
                             seams.real.monotonic(), core.Known(), enough=10 ** 9)
        for r in results:
            if r["status"] != "ok":
                key = r["kind"] + " " + re.sub(r"[0-9]+", "N", r["msg"])[-160:]
                groups.setdefault(key, []).append(r)
        for key, rs in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:15]:
            r = min(rs, key=lambda r: len(json.dumps(r.get("plan"))))
            print("%d x %s\n   run %s: %s\n%s   plan %s" % (
                len(rs), r["kind"], r["index"], core.short(r["msg"], 700),
                r.get("tb", "")[-1200:], core.short(json.dumps(r.get("plan")), 160)))
        print("%d runs, %d bad, slowest %s" % (len(results), sum(map(len, groups.values())),
              sorted((round(r["wall"], 1), r["index"]) for r in results)[-5:]))
        return 0
    if args[0] == "run":
        prop = load(args[1])
        prop.setup()
        plan = prop.gen(core.make_rng(int(args[2]), prop.id, int(args[3])),
                        int(args[3]), "quick")
        print(core.short(json.dumps(plan), 5000))
        res = core.execute(prop, plan, verbose=True)
        res["states"] = len(res["states"])
        print(json.dumps(res, indent=1))
        return 0
    if args[0] == "digest":
        prop = load(args[1])
        prop.setup()
        out = {}
        for i in args[4:]:
            plan = prop.gen(core.make_rng(int(args[3]), prop.id, int(i)), int(i), args[2])
            out[i] = core.forked(prop, plan).get("digest")
        print(json.dumps(out))
        return 0
    prop = load(args[0])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.run_check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
