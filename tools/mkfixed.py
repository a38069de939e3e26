"""Refresh the "fixed" list of known_findings.json from the fix: commits of
/repo. The property of each commit is in FIXED (subject -> property)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "tools", "fixed.json")) as f:
    FIXED = json.load(f)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                     stdout=subprocess.PIPE, text=True).stdout
fixed, unknown = [], []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in FIXED:
        unknown.append(s)
        continue
    fixed.append("fixed: property=%s %s %s" % (FIXED[s], h, s))
path = os.path.join(HERE, "known_findings.json")
try:
    data = json.load(open(path))
except FileNotFoundError:
    data = {"findings": []}
data["fixed"] = fixed
with open(path, "w") as f:
    json.dump(data, f, indent=1)
    f.write("\n")
print(len(fixed), "fixed; unknown:", unknown)
