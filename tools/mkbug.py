"""Plant a bug: python tools/mkbug.py FILE...  Each FILE is a Python script
which defines ID, PROPERTY, EDITS [(path, old, new)], NEEDS, BREAKS, DEMO.
The bug is checked in a copy of /repo and kept in seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def demo(d, cwd):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, timeout=300,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")[-600:]


def check_bug(path):
    ns = {}
    exec(open(path).read(), ns)
    out = os.path.join(HERE, "seeded", ns["ID"])
    tmp = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    try:
        wt = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        for p, old, new in ns["EDITS"]:
            f = os.path.join(wt, p)
            s = open(f).read()
            if s.count(old) != 1:
                print(ns["ID"], "EDIT matches", s.count(old), "times:", p, repr(old))
                return False
            open(f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(
            "import os, sys\nsys.dont_write_bytecode = True\n"
            "sys.path.insert(0, os.getcwd())\n" + ns["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# Exit 0 if the property holds\npy=/opt/venv/bin/python\n'
            '[ -x "$py" ] || py=python3\nexec "$py" "$(dirname "$0")/demo.py"\n')
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
                   "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        good, o1 = demo(out, "/repo")
        bad, o2 = demo(out, wt)
        res = os.path.join(tmp, "o.json")
        t = subprocess.run([PY, "-bb", "-m", "pytest", "-q", "-x", "--deselect",
                            "tests/test_parser.py::TestParsers::test_ext2_variety_inode_types",
                            "-W", "error", "-W", "ignore::pytest.PytestCollectionWarning",
                            "-p", "no:cacheprovider", "tests"], cwd=wt,
                           env=dict(os.environ, SLOW_TESTS="1", PYTHONPATH=wt,
                                    PYTHONDONTWRITEBYTECODE="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = good == 0 and bad != 0 and t.returncode == 0
        print(ns["ID"], "OK" if ok else "BAD", "demo", good, bad, "tests", t.returncode)
        if not ok:
            print(o1, "\n---\n", o2, "\n---\n", t.stdout.decode()[-800:])
            shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(tmp)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(6) as ex:
    list(ex.map(check_bug, sys.argv[1:]))
