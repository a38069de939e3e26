"""Which bugs does the check of their property catch? tools/catch.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
    try:
        wt = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], check=True)
        env = dict(os.environ, HACHOIR_REPO=wt, VERIF_SEED="1",
                   VERIF_EVIDENCE=os.path.join(tmp, "ev"),
                   VERIF_REPLAYS=os.path.join(tmp, "rep"))
        t = time.time()
        p = subprocess.run(["bash", os.path.join(HERE, "check"), meta["property"], "quick"],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        got = ("VIOLATION property=%s" % meta["property"]) in out and p.returncode == 1
        lines = [x for x in out.splitlines() if x.startswith("violation of")]
        print("%-12s %s %s exit %d %.0fs %s" % (i, meta["property"], "caught" if got
              else "MISSED", p.returncode, time.time() - t, lines[:2]))
        if p.returncode not in (0, 1):
            print(out[-2000:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)
