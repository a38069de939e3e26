"""Writes props/subfile.json: the intact documents which hachoir-subfile finds
in the middle of an image, and the size it gives. To be run on a tree which is
believed to be right, and reviewed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
path = os.path.join(HERE, "props", "subfile.json")
if not os.path.exists(path):
    with open(path, "w") as f:
        f.write("{}")
from simkit import core, docs, seams  # noqa
sys.path.insert(0, core.REPO)
from props.subfile import reference  # noqa

out = {}
for name in docs.corpus_names():
    doc = docs.load(name)
    data = b"text " * 60 + doc + b"text " * 2000
    want, every, regions = docs.in_child(reference, data, 0, len(data), [], [])
    for w in want:
        if w[0] == 300:
            out[name] = w[1] if w[1] == len(doc) else None
with open(path, "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write("\n")
