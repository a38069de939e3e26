"""Write properties.jsonl and MANIFEST.json from spec.py and the checks."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import spec  # noqa
import main  # noqa



def where(name, files):
    """File of the repository which defines this name"""
    last = name.split(".")[-1].rstrip("()")
    for pattern in files:
        for path in sorted(glob.glob(os.path.join("/repo", pattern.split(" ")[0]))):
            if os.path.isfile(path) and re.search(
                    r"^\s*(def|class) %s\b|^\s*%s = " % ((re.escape(last),) * 2),
                    open(path).read(), re.M):
                return os.path.relpath(path, "/repo")
    return files[0]


props = main.load(None)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in spec.PROPS.items():
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": n, "meaning": m} for n, m in p["state"]],
                        "mechanism": [{"name": n, "where": where(n, p["files"])}
                                      for n in p["mechanism"]], "observe_at": list(p["observe"]),
                        "hook_needed": p["hook"] or None}}) + "\n")
checks = []
for pid, p in spec.PROPS.items():
    if pid not in props or pid in spec.NOT_APPLICABLE:
        continue
    checks.append({
        "property": pid, "quick_cmd": "bash check %s quick" % pid,
        "thorough_cmd": "bash check %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "deterministic simulation with fault injection: " + props[pid].method,
        "level": "exploration",
        "level_note": p["note"] or ("seeded search: %d runs on every change, %d in the thorough "
                                    "check; nothing is proved outside of the explored runs"
                                    % (props[pid].runs["quick"], props[pid].runs["thorough"]))})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash check list",
               "hooks": {"guard": "none", "enable": "no hook is needed: the seams are the "
                         "modules and objects the code already uses", "source_commits": []},
               "checks": checks,
               "not_applicable": [{"property": k, "reason": v}
                                  for k, v in spec.NOT_APPLICABLE.items()],
               "notes": spec.NOTES}, f, indent=1)
    f.write("\n")
print(len(spec.PROPS), "properties,", len(checks), "checks")
