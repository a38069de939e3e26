"""F04: documents do not influence each other.  F05: nor does the process in
which they are parsed.  F07: transient read errors.  M01: metadata."""
import contextlib
import functools
import gc
import hashlib
import io
import json
import os
import subprocess
import sys

from simkit import core, docs
from simkit.core import Violation, short
from simkit.docs import damage, load
from props.streams import Faults, RawSource
from props.trees import DocProp, build, check_tree


# 12 s of LZX decompression per read of its contents
SLOW = ("georgia.cab",)


def texts(metadata):
    """What the user sees of metadata"""
    if metadata is None:
        return None
    return [metadata.exportPlaintext(), metadata.exportPlaintext(human=False),
            repr(metadata.exportDictionary()), bool(metadata)]


class Session:
    """The work on one document, as a coroutine. Its results are recorded in
    out, whatever happens to the other sessions."""

    def __init__(self, doc, limit):
        self.doc = doc
        self.limit = limit
        self.out = []
        self.done = False
        self.steps = self.work()

    def advance(self, n):
        try:
            for _ in range(n):
                next(self.steps)
        except StopIteration:
            self.done = True
        except Exception as err:
            self.out.append(["EXC", type(err).__name__, str(err)])
            self.done = True

    def work(self):
        from hachoir.stream import StringInputStream
        from hachoir.parser.guess import guessParser
        from hachoir.metadata import extractMetadata
        doc = self.doc
        data = DocProp.content(doc)
        if doc["guess"]:
            tags = [("filename", doc["file"].replace(":", "."))] if doc["guess"] > 1 else []
            root = guessParser(StringInputStream(data, tags=tags))
            self.out.append(["guess", root and type(root).__name__])
            if root is None:
                return
        else:
            root = build(doc, data)
        yield
        if doc["metadata"] == 1:
            self.out.append(["metadata", texts(extractMetadata(root, doc["quality"]))])
            yield
        self.out.append([root.mime_type, root.description, root.filename_suffix])
        rows = 0
        stack = [iter([root])]
        while stack and rows < self.limit:
            try:
                f = next(stack[-1])
            except StopIteration:
                stack.pop()
                continue
            except Exception as err:
                self.out.append(["RAISED", type(err).__name__, docs.clean(str(err))])
                stack.pop()
                continue
            if f.is_field_set:
                try:
                    f.readFirstFields(docs.SETTLE)
                except Exception as err:
                    self.out.append(["RAISED", type(err).__name__, docs.clean(str(err))])
                    continue
                stack.append(iter(f))
            self.out.append(docs.entry(f))
            rows += 1
            yield
        if doc["content"]:
            self.contents(root)
            yield
        if doc["metadata"] == 2:
            self.out.append(["metadata", texts(extractMetadata(root, doc["quality"]))])

    def contents(self, root):
        from props.contents import find_contents, reach
        special, plain, _ = find_contents(root, 300)
        for path, links in special[:4] + plain[:1]:
            try:
                stream = reach(root, path, links).getSubIStream()
                d = stream.read(0, 8 * 2000)[1][:2000]
                self.out.append(["content", path, hashlib.sha1(d).hexdigest()])
            except Exception as err:
                self.out.append(["content", path, type(err).__name__])


class F04(DocProp):
    id = "F04"
    title = "Documents opened in the same process do not influence each other"
    runs = {"quick": 3000, "thorough": 100000}
    lists = ("docs", "schedule")
    kinds = None
    synth = 0.05
    method = ("seeded schedules of coroutines which guess, parse, read and extract metadata of "
              "several documents, against the same work alone in a fresh process")
    rule = ("One run: 2 to 5 documents (often of the same format or with the same damage) are "
            "each guessed or opened, walked, their contents and metadata read, by coroutines "
            "which the plan interleaves; each result must be the one of the same coroutine "
            "alone in a process forked before anything was parsed. Non-trivial: two documents "
            "gave more than 10 results.")
    real = DocProp.real + ["hachoir.metadata"]

    def gen(self, rng, index, tier):
        n = rng.pick([2, 2, 3, 3, 5])
        out = []
        for _ in range(n):
            if out and rng.chance(0.3):
                doc = dict(rng.pick(out))
                if rng.chance(0.5) and "file" in doc:
                    doc["mut"] = docs.gen_damage(rng, len(load(doc["file"])))
            elif out and rng.chance(0.35) and "parser" in out[-1]:
                # another document for the same parser
                pid = out[-1]["parser"]
                names = self.docs.by_parser.get(pid)
                if not names:
                    doc = self.gen_doc(rng)
                else:
                    name = rng.pick(sorted(names))
                    doc = {"file": name, "parser": pid,
                           "mut": docs.gen_damage(rng, len(load(name)),
                                                  rng.pick(["none", None]))}
            else:
                doc = self.gen_doc(rng, ["none"] if rng.chance(0.4) else None)
            doc["guess"] = rng.pick([0, 0, 1, 2]) if "file" in doc else 0
            doc["metadata"] = rng.pick([0, 1, 2])
            doc["quality"] = rng.pick([0.0, 0.5, 1.0])
            doc["content"] = rng.chance(0.4) and doc.get("file") not in SLOW
            out.append(doc)
        return {"docs": out, "limit": rng.pick([60, 200, 500]),
                "schedule": [[rng.randrange(n), rng.pick([1, 2, 5, 20, 200])]
                             for _ in range(rng.pick([3, 10, 40]))],
                "gc": rng.chance(0.3)}

    def run(self, plan, ctx):
        for doc in plan["docs"]:
            docs.count_damage(ctx, doc["mut"])

        def alone(doc):
            s = Session(doc, plan["limit"])
            while not s.done:
                s.advance(1000)
            return s.out

        want = [docs.in_child(alone, doc) for doc in plan["docs"]]
        sessions = [Session(doc, plan["limit"]) for doc in plan["docs"]]
        for i, n in plan["schedule"]:
            if i < len(sessions) and not sessions[i].done:
                ctx.op(i, n)
                sessions[i].advance(n)
                if plan["gc"]:
                    gc.collect()
        while not all(s.done for s in sessions):
            for s in sessions:
                if not s.done:
                    s.advance(1000)
        for i, (s, w) in enumerate(zip(sessions, want)):
            got = json.loads(json.dumps(s.out))
            if got != w:
                k = next((k for k in range(min(len(got), len(w))) if got[k] != w[k]),
                         min(len(got), len(w)))
                raise Violation("documents-interfere", "document %d, result %d of %d/%d: %s "
                                "instead of %s" % (i, k, len(got), len(w),
                                                   short(got[k:k + 1], 500),
                                                   short(w[k:k + 1], 500)))
            ctx.event(len(w))
        if sum(len(w) > 10 for w in want) > 1:
            ctx.probe("compared")
        ctx.state(*[len(w) for w in want])

    def simplify(self, plan):
        for i, doc in enumerate(plan["docs"]):
            for key in ("guess", "metadata", "content"):
                if doc[key]:
                    new = list(plan["docs"])
                    new[i] = dict(doc, **{key: 0})
                    yield dict(plan, docs=new)
            if doc["mut"]:
                new = list(plan["docs"])
                new[i] = dict(doc, mut=[])
                yield dict(plan, docs=new)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("compared", 0) > 0


# ------------------------------------------------------------------------ F07

class F07(DocProp):
    id = "F07"
    title = "Transient read errors never give wrong fields, and leave no trace"
    runs = {"quick": 4000, "thorough": 120000}
    lists = ("faults", "mut")
    synth = 0.1
    method = ("seeded read errors and short reads of the medium while a document is parsed, "
              "then parsed again on the same stream")
    rule = ("One run: a document is opened on a medium whose reads fail or are cut as the plan "
            "says, and walked; the fields which have the address, size and type of the "
            "reference must have its value or raise an error. Then the faults stop: a new "
            "parser on the same stream gives exactly the tree and contents of a fresh one. "
            "Non-trivial: a read failed.")
    stubs = ["storage medium (file-like object with faults)"]

    def gen(self, rng, index, tier):
        plan = self.gen_doc(rng, ["none"] if rng.chance(0.6) else None)
        plan["limit"] = rng.pick([100, 400, 1000])
        plan["faults"] = sorted([rng.randrange(rng.pick([5, 30, 300])),
                                 rng.pick(["eio", "eio", "short", "eintr", "timeout"])]
                                for _ in range(rng.pick([1, 1, 2, 5, 12])))
        plan["walks"] = rng.pick([1, 1, 2])
        plan["contents"] = rng.chance(0.5) and plan.get("file") not in SLOW
        return plan

    def run(self, plan, ctx):
        from hachoir.stream import InputIOStream, StringInputStream
        docs.count_damage(ctx, plan["mut"])
        data = self.content(plan)
        session = dict(plan, guess=0, metadata=0, quality=0.5, content=plan["contents"])

        def dump(stream):
            try:
                root = build(plan, None, stream)
                rows = docs.dump(root, plan["limit"], True)
            except Exception as err:
                return [["EXC", type(err).__name__]], None
            return rows, root

        def contents(root):
            s = Session(session, 0)
            s.contents(root)
            return s.out

        want, root = dump(StringInputStream(data))
        stored = contents(root) if plan["contents"] and root else []
        faults = Faults(ctx, plan["faults"])
        try:
            stream = InputIOStream(RawSource(data, faults))
        except Exception:
            ctx.probe("open.failed")
            return
        during = []
        watch_values(faults, during)
        for _ in range(plan["walks"]):
            rows, root = dump(stream)
            for row in rows:
                kind = row[1] if row[0] in ("RAISED", "EXC") else \
                    row[4][4:] if str(row[4]).startswith("EXC ") else None
                if kind:
                    ctx.probe("error." + kind)
            ctx.event(len(rows), faults.fired)
            if root:
                # what was read is consistent with the bytes, the rest is None
                try:
                    check_tree(root, data, plan["limit"], ctx, none_ok=True)
                except Violation:
                    raise
                except Exception as err:
                    ctx.probe("check." + type(err).__name__)
            if plan["contents"] and root:
                contents(root)
        if faults.fired:
            ctx.probe("faults.fired")
        reference = {tuple(row[:4]): row[4] for row in want if len(row) > 4}
        for path, name, address, size, value in during:
            expected = reference.get((path, name, address, size))
            if expected is not None and expected != value:
                raise Violation("wrong-value", "%s (%s): %s instead of %s: its bytes could not "
                                "be read" % (path, name, short(value), short(expected)))
            ctx.probe("value.during.fault")
        faults.enabled = False
        rows, root = dump(stream)
        docs.compare("tree on the stream after read errors", want, rows)
        if plan["contents"] and root:
            got = contents(root)
            if got != stored:
                raise Violation("wrong-content", "after read errors: %s instead of %s" % (
                    short(got), short(stored)))
            ctx.probe("contents.compared")
        ctx.state(len(rows), faults.fired)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("faults.fired", 0) > 0


def watch_values(faults, out):
    """Record the values which the basic types of fields compute while the first
    fault of the run happens (later ones may be computed from fields which were
    lost). This process is not used for another run."""
    import hachoir.field
    from hachoir.field import BasicFieldSet, Field, Fragment, Link

    def watch(create):
        @functools.wraps(create)
        def createValue(self, *args, **kw):
            before = faults.fired
            value = create(self, *args, **kw)
            if before == 0 and faults.fired and value is not None and not args and not kw \
                    and type(self).createValue is createValue:
                out.append([self.path, type(self).__name__, self.absolute_address, self.size,
                            docs.clean(value)])
            return value
        return createValue

    todo = [Field]
    seen = set()
    while todo:
        cls = todo.pop()
        if cls in seen:
            continue
        seen.add(cls)
        todo += cls.__subclasses__()
        if cls.__module__.startswith("hachoir.field.") and "createValue" in vars(cls) \
                and not issubclass(cls, (BasicFieldSet, Link, Fragment)) and cls is not Field:
            cls.createValue = watch(vars(cls)["createValue"])


# ------------------------------------------------------------------------ F05

def hash_worker():
    """Executed in a fresh interpreter whose hashes are decided by the plan:
    PYTHONHASHSEED for strings, a metaclass for the classes of hachoir (the
    hash of a class is its address otherwise)."""
    import builtins
    plan = json.load(sys.stdin)
    seed = plan["hash"]
    real_build = builtins.__build_class__

    class SimMeta(type):
        def __hash__(cls):
            key = "%d %s.%s" % (seed, cls.__module__, cls.__qualname__)
            return int.from_bytes(hashlib.sha1(key.encode()).digest()[:7], "big")

    def build_class(func, name, *bases, metaclass=None, **kw):
        if metaclass is None and func.__module__ is not None \
                and func.__globals__.get("__name__", "").startswith("hachoir.") \
                and all(type(b) in (type, SimMeta) for b in bases):
            metaclass = SimMeta
        if metaclass is None:
            return real_build(func, name, *bases, **kw)
        cls = real_build(func, name, *bases, metaclass=metaclass, **kw)
        if metaclass is SimMeta and cls.__hash__ is object.__hash__ \
                and not issubclass(cls, type):
            cls.__hash__ = instance_hash
        return cls

    builtins.__build_class__ = build_class

    # instances: the hash is decided when it is needed for the first time
    count = [0]

    def instance_hash(self):
        try:
            d = object.__getattribute__(self, "__dict__")
        except AttributeError:
            return object.__hash__(self)
        if "_sim_hash" not in d:
            count[0] += 1
            key = "%d %d" % (seed, count[0])
            d["_sim_hash"] = int.from_bytes(hashlib.sha1(key.encode()).digest()[:7], "big")
        return d["_sim_hash"]

    class SimModule(type(sys)):
        def __hash__(self):
            key = "%d module %s" % (seed, self.__name__)
            return int.from_bytes(hashlib.sha1(key.encode()).digest()[:7], "big")

    import importlib._bootstrap as bootstrap
    new_module = bootstrap._new_module

    def sim_module(name):
        return SimModule(name) if name.split(".")[0] == "hachoir" else new_module(name)
    bootstrap._new_module = sim_module
    import hachoir.parser  # noqa
    import hachoir.metadata  # noqa
    docs.quiet()
    out = []
    for doc in plan["docs"]:
        printed = io.StringIO()
        with contextlib.redirect_stdout(printed):
            s = Session(doc, plan["limit"])
            while not s.done:
                s.advance(1000)
            out.append(s.out)
            if doc["subfile"]:
                subfiles(DocProp.content(doc), doc["subfile"])
            if doc["tags"]:
                out[-1].append(by_tags(DocProp.content(doc), doc["tags"]))
        out[-1].append(printed.getvalue())
    sys.stdout.write(json.dumps(out))
    return 0


def by_tags(data, tags):
    """Classes tried for a query, in order, and the one which is chosen"""
    from hachoir.parser.guess import QueryParser
    from hachoir.stream import StringInputStream
    query = {
        "archive": [("category", "archive"), None],
        "mime": [("mime", "image/jpeg")],
        "callable": [lambda p: p.PARSER_TAGS["id"][0] in "abcdefg", None],
        "ext": [("file_ext", "bin")],
        "all": [("file_ext", None)],
        "none": [],
    }[tags]
    parser = QueryParser(query)
    return [[p.__name__ for p in parser],
            type(parser.parse(StringInputStream(data))).__name__]


def subfiles(data, kind):
    """What hachoir-subfile finds, printed"""
    from hachoir.stream import StringInputStream
    from hachoir.subfile.search import SearchSubfile
    search = SearchSubfile(StringInputStream(data), 0, None)
    search.verbose = False
    search.loadParsers(categories=["image", "archive"] if kind == 2 else None)
    search.main()


class F05(DocProp):
    id = "F05"
    title = "Results are a function of the document"
    runs = {"quick": 160, "thorough": 6000}
    lists = ("docs",)
    synth = 0.0
    method = ("seeded hash orders: the same documents in several interpreters whose hash "
              "functions (strings, classes) are decided by the plan")
    rule = ("One run: 12 documents are guessed with several kinds of queries, walked, and "
            "their metadata and embedded files are extracted, in two fresh interpreters "
            "with different seeds of the hash functions; all results are equal. "
            "Non-trivial: a document was recognised.")
    real = DocProp.real + ["hachoir.metadata", "hachoir.subfile"]
    stubs = ["hash of strings (PYTHONHASHSEED), and of the classes, instances and modules of "
             "hachoir (seeded)"]
    assumptions = ["objects of other libraries keep the hash of CPython"]

    def gen(self, rng, index, tier):
        out = []
        for _ in range(12):
            doc = self.gen_doc(rng, ["none"] if rng.chance(0.6) else None)
            doc["guess"] = rng.pick([1, 1, 1, 2])
            doc["metadata"] = rng.pick([0, 1, 2])
            doc["quality"] = rng.pick([0.0, 0.5, 1.0])
            doc["content"] = rng.chance(0.2) and doc["file"] not in SLOW
            size = len(load(doc["file"]))
            doc["subfile"] = rng.pick([1, 2]) if size < 20000 and rng.chance(0.2) else 0
            doc["tags"] = rng.pick(["", "", "archive", "mime", "callable", "ext", "all", "none"])
            out.append(doc)
        return {"docs": out, "limit": rng.pick([10, 60, 200]),
                "hashes": [rng.randrange(1, 1 << 31) for _ in range(2)]}

    def run(self, plan, ctx):
        for doc in plan["docs"]:
            docs.count_damage(ctx, doc["mut"])
        results = []
        for h in plan["hashes"]:
            env = dict(os.environ, PYTHONHASHSEED=str(h), LC_ALL="C.UTF-8", TZ="UTC",
                       HACHOIR_REPO=core.REPO)
            p = subprocess.run([sys.executable, "-B", os.path.join(core.VERIF, "main.py"),
                                "hashworker"], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE,
                               input=json.dumps(dict(plan, hash=h)).encode())
            if p.returncode:
                raise core.HarnessError("worker: %s" % p.stderr.decode()[-500:])
            results.append(json.loads(p.stdout))
            ctx.fault("hash_order")
        a, b = results
        for doc, x, y in zip(plan["docs"], a, b):
            if x != y:
                k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]),
                         min(len(x), len(y)))
                raise Violation("depends-on-hashes", "%s: %s / %s" % (
                    doc["file"], short(x[k:k + 1], 400), short(y[k:k + 1], 400)))
            ctx.event(doc["file"], len(x))
            if len(x) > 2:
                ctx.probe("recognised")
        ctx.state(*plan["hashes"])

    def nontrivial(self, plan, summary):
        return summary["probes"].get("recognised", 0) > 0
