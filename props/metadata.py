"""M01: metadata extraction.  M02: hachoir-metadata on a simulated disk."""
import contextlib
import datetime
import io
import json
import re
import os
import sys
import traceback

from simkit import core, docs, seams
from simkit.core import Violation, short
from simkit.fs import ROOT, SimFS, gen_faults
from props.streams import Faults, RawSource
from props.trees import DocProp, build


def groups(metadata, prefix=""):
    """All the (group, Metadata) of a metadata"""
    yield prefix, metadata
    if hasattr(metadata, "iterGroups"):
        for i, g in enumerate(metadata.iterGroups()):
            yield from groups(g, "%s/%d" % (prefix, i))


def values(metadata):
    """Everything which was extracted"""
    if metadata is None:
        return None
    out = []
    for where, g in groups(metadata):
        out.append([where, type(g).__name__, g.header])
        for data in g:
            for k, item in enumerate(data):
                out.append([where, data.key, repr(item.value), item.text])
    return out


def check_metadata(metadata, ctx):
    """What holds for the metadata of any document"""
    from hachoir.metadata import config
    from hachoir.metadata.filter import MIN_YEAR, MAX_YEAR
    if metadata is None:
        return

    def call(what, func, *args, **kw):
        try:
            return func(*args, **kw)
        except Exception as err:
            raise Violation("export-raises", "%s: %s: %s" % (
                what, type(err).__name__, short(str(err)))) from err

    full = {}
    for human in (True, False):
        full[human] = call("exportPlaintext(human=%s)" % human, metadata.exportPlaintext,
                           human=human)
        call("exportDictionary(human=%s)" % human, metadata.exportDictionary, human=human)
        lines = full[human] or []
        if not all(isinstance(x, str) for x in lines):
            raise Violation("export-type", short(lines))
        for priority in (0, 100, 199, 299, 450, 599, 800, 950, 2000):
            part = call("exportPlaintext(%s)" % priority, metadata.exportPlaintext, priority,
                        human) or []
            it = iter(lines)
            if not all(x in it for x in part):
                raise Violation("priority", "lines with priority %s are not in the whole: %s" % (
                    priority, short(part)))
    if bool(metadata) != (full[True] is not None):
        raise Violation("bool", "%s, but the text is %s" % (bool(metadata), short(full[True])))
    if full[True]:
        if call("str", str, metadata) != "\n".join(full[True]):
            raise Violation("export-str", "str() is not exportPlaintext()")
        if len(full[True]) != len(full[False]):
            raise Violation("export-raw", "%d lines, %d without human" % (
                len(full[True]), len(full[False])))
    count = 0
    for where, g in groups(metadata):
        for data in g:
            seen = []
            for k, item in enumerate(data):
                count += 1
                v = item.value
                if v is None or v == "" or v in seen:
                    raise Violation("bad-value", "%s %s: %r, after %s" % (
                        where, data.key, v, short(seen)))
                seen.append(v)
                if isinstance(v, str) and config.MAX_STR_LENGTH and \
                        len(v) > config.MAX_STR_LENGTH + 5:
                    raise Violation("too-long", "%s: %d characters" % (data.key, len(v)))
                if isinstance(v, datetime.date) and data.filter \
                        and not MIN_YEAR <= v.year <= MAX_YEAR:
                    raise Violation("bad-date", "%s: %s" % (data.key, v))
                if not isinstance(item.text, str):
                    raise Violation("text-type", "%s: %r" % (data.key, item.text))
                if g.getText(data.key, index=k) != item.text:
                    raise Violation("get-text", data.key)
            if bool(seen) != g.has(data.key):
                raise Violation("has", data.key)
    if full[True] and full[True] is not None:
        ctx.probe("metadata")
        ctx.probe("values", count)


class M01(DocProp):
    id = "M01"
    title = "Metadata are always given, and depend on the document only"
    runs = {"quick": 8000, "thorough": 200000}
    lists = ("ops", "faults", "mut")
    synth = 0.0
    method = ("seeded histories of accesses to the fields before the extraction, damages of the "
              "documents and read errors")
    rule = ("One run: metadata are extracted from a document, damaged or not: from a fresh "
            "parser, after a history of accesses to its fields, twice, and while and after "
            "reads fail. No error is raised, results without faults are equal, and the exports "
            "agree with each other. Non-trivial: metadata were found.")
    real = DocProp.real + ["hachoir.metadata"]
    stubs = ["storage medium (file-like object with faults)"]

    def gen(self, rng, index, tier):
        for _ in range(20):
            plan = self.gen_doc(rng, ["none"] if rng.chance(0.3) else None)
            if plan["parser"] in self.extractors:
                break
        plan["quality"] = rng.pick([0.0, 0.25, 0.5, 0.75, 1.0])
        plan["ops"] = docs.gen_access(rng, rng.pick([0, 3, 10, 40]))
        plan["faults"] = sorted([rng.randrange(rng.pick([5, 30, 300])),
                                 rng.pick(["eio", "eio", "short", "eintr", "timeout"])]
                                for _ in range(rng.pick([0, 0, 1, 3, 8])))
        return plan

    def setup(self):
        DocProp.setup(self)

        def find():
            from hachoir.metadata.metadata import extractors
            import hachoir.metadata  # noqa
            return sorted(c.PARSER_TAGS["id"] for c in extractors)
        self.extractors = set(docs.in_child(find))
        import hachoir.metadata  # noqa

    def run(self, plan, ctx):
        from hachoir.metadata import extractMetadata
        from hachoir.stream import InputIOStream
        docs.count_damage(ctx, plan["mut"])
        data = self.content(plan)

        def extract(root, what):
            try:
                metadata = extractMetadata(root, plan["quality"])
                return metadata
            except Exception as err:
                raise Violation("extraction-raises", "%s: %s: %s" % (
                    what, type(err).__name__, short(str(err)))) from err

        try:
            root = build(plan, data)
        except Exception as err:
            ctx.probe("refused." + type(err).__name__)
            return
        first = extract(root, "fresh parser")
        check_metadata(first, ctx)
        want = values(first)
        again = values(extract(root, "second extraction"))
        if again != want:
            self.differ("second extraction", want, again)
        if plan["ops"]:
            root2 = build(plan, data)
            access = docs.Access([root2], ctx)
            for op in plan["ops"]:
                ctx.op(*op)
                access.do(op)
            got = values(extract(root2, "after accesses"))
            if got != want:
                self.differ("after accesses", want, got)
        if plan["faults"]:
            faults = Faults(ctx, plan["faults"])
            try:
                stream = InputIOStream(RawSource(data, faults))
                root3 = build(plan, None, stream)
            except Exception:
                ctx.probe("open.failed")
                return
            metadata = extract(root3, "with read errors")
            check_metadata(metadata, ctx)
            if faults.fired:
                ctx.probe("faults.fired")
            faults.enabled = False
            got = values(extract(build(plan, None, stream), "after read errors"))
            if got != want:
                self.differ("after read errors", want, got)
        ctx.event(want)
        ctx.state(plan["parser"], len(want or ()), plan["quality"])

    @staticmethod
    def differ(what, want, got):
        want, got = want or [], got or []
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]),
                 min(len(got), len(want)))
        raise Violation("metadata-differ", "%s: %s instead of %s" % (
            what, short(got[k:k + 2]), short(want[k:k + 2])))

    def nontrivial(self, plan, summary):
        return summary["probes"].get("metadata", 0) > 0


class M03(DocProp):
    id = "M03"
    title = "The metadata of a document are the facts which it records"
    runs = {"quick": 5000, "thorough": 150000}
    lists = ("ops", "faults")
    method = ("generated documents whose facts are known, seeded histories of accesses, read "
              "errors and disk faults")
    rule = ("One run: a document of one of the generated formats is written from random facts "
            "(size, duration, rates, dates, texts, members...). Metadata are extracted from it "
            "after a history of accesses and short reads, after read errors stopped, or from a "
            "file of a simulated disk whose format is guessed. The values of each recorded key "
            "must be the facts, and their text the value in the documented units. Non-trivial: "
            "at least one fact compared.")
    real = DocProp.real + ["hachoir.metadata", "hachoir.parser.guess"]
    stubs = ["storage medium (file-like object with faults)", "disk (SimFS)"]
    assumptions = ["documents are written by generators of the check, from the specifications "
                   "of the formats",
                   "durations are compared to 2 ms, other numbers to 1e-6"]

    def gen(self, rng, index, tier):
        kind = rng.pick(sorted(docs.FACTS))
        plan = {"kind": kind, "seed": rng.randrange(1000000), "mut": [],
                "quality": rng.pick([0.5, 0.5, 0.75, 1.0]),
                "how": rng.pick(["parser", "parser", "file", "errors"]),
                "name": rng.pick(["doc", "\xe9t\xe9 1", "a.b", "%s"]),
                "extension": kind in NEED_EXTENSION or rng.chance(0.6),
                "ops": docs.gen_access(rng, rng.pick([0, 3, 10, 40])), "faults": []}
        if plan["how"] == "parser":
            kinds = ["short"]
        elif plan["how"] == "errors":
            kinds = ["eio", "eio", "short", "eintr", "timeout"]
        else:
            kinds = []
            plan["faults"] = sorted(["read", rng.randrange(rng.pick([5, 30, 300])), "short"]
                                    for _ in range(rng.pick([0, 0, 1, 3, 8])))
        if kinds:
            plan["faults"] = sorted([rng.randrange(rng.pick([5, 30, 300])), rng.pick(kinds)]
                                    for _ in range(rng.pick([0, 1, 3, 8])))
        return plan

    def run(self, plan, ctx):
        from hachoir.metadata import extractMetadata
        from hachoir.parser import createParser
        from hachoir.stream import InputIOStream
        kind = plan["kind"]
        data, known = docs.FACTS[kind](core.make_rng("facts", kind, plan["seed"]))
        pid = docs.FACTS_ID[kind]

        def extract(root, what):
            try:
                return extractMetadata(root, plan["quality"])
            except Exception as err:
                raise Violation("extraction-raises", "%s: %s: %s" % (
                    what, type(err).__name__, short(str(err)))) from err

        def parse(stream, what):
            try:
                root = docs.parser_class(pid)(stream)
                valid = root.validate()
            except Exception as err:
                raise Violation("refused", "%s, %s: %s" % (
                    pid, what, short(repr(err)))) from err
            if valid is not True:
                raise Violation("refused", "%s, %s: validate() gives %s" % (
                    pid, what, short(valid)))
            return root

        if plan["how"] == "file":
            name = plan["name"]
            if plan["extension"]:
                tags = docs.parser_class(pid).PARSER_TAGS
                name += "." + tags.get("file_ext", ("img",))[0]
            disk = SimFS(ctx, plan["faults"])
            disk.write_file(ROOT + "/" + name, data)
            seams.env.fs = disk
            try:
                root = createParser(ROOT + "/" + name)
                if root is not None and not plan["extension"] \
                        and not root.PARSER_TAGS.get("magic"):
                    # A format without magic number, by chance
                    ctx.probe("ambiguous")
                    return
                if root is None or root.PARSER_TAGS["id"] != pid:
                    raise Violation("not-recognised", "%s: %s" % (
                        pid, root and root.PARSER_TAGS["id"]))
                self.access(plan, ctx, root)
                metadata = extract(root, "file")
                root.close()
            finally:
                seams.env.fs = None
            ctx.probe("file")
        else:
            faults = Faults(ctx, plan["faults"])
            if plan["how"] == "errors":
                faults.enabled = False
            raw = RawSource(data, faults)
            # (A raw file may give less than asked; a buffered one does not)
            stream = InputIOStream(raw if plan["how"] == "errors" else io.BufferedReader(raw))
            if plan["how"] == "errors":
                faults.enabled = True
                try:
                    root = docs.parser_class(pid)(stream)
                    self.access(plan, ctx, root)
                except Exception:
                    ctx.probe("failed")
                else:
                    extract(root, "with read errors")
                faults.enabled = False
                if faults.fired:
                    ctx.probe("faults.fired")
            root = parse(stream, plan["how"])
            if plan["how"] == "parser":
                self.access(plan, ctx, root)
            metadata = extract(root, plan["how"])
        if metadata is None:
            raise Violation("no-metadata", pid)
        ctx.event(values(metadata))
        compare_facts(metadata, known, ctx)
        check_texts(metadata, ctx)
        ctx.state(kind, len(known), plan["how"], plan["extension"])

    @staticmethod
    def access(plan, ctx, root):
        access = docs.Access([root], ctx)
        for op in plan["ops"]:
            ctx.op(*op)
            access.do(op)

    def sample(self, plan):
        return short(json.dumps(plan), 500)

    def simplify(self, plan):
        for q in (0.5,):
            if plan["quality"] != q:
                yield dict(plan, quality=q)
        for seed in range(5):
            if plan["seed"] > seed:
                yield dict(plan, seed=seed)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("fact", 0) > 0


NEED_EXTENSION = {"tga"}


def near(a, b):
    if isinstance(a, datetime.timedelta) and isinstance(b, datetime.timedelta):
        return abs((a - b).total_seconds()) < 2e-3
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1, abs(a))
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime) \
            and (a.tzinfo is None) != (b.tzinfo is None):
        return False
    return a == b


def compare_facts(metadata, known, ctx):
    """The facts of a document are in its metadata"""
    parts = list(metadata.iterGroups()) if hasattr(metadata, "iterGroups") else []
    for group, key, want in known:
        if group is not None and group >= len(parts):
            raise Violation("missing-group", "%d groups, no number %d" % (len(parts), group))
        m = metadata if group is None else parts[group]
        got = [item.value for data in m if data.key == key for item in data]
        ctx.probe("fact")
        if len(got) != len(want) or not all(map(near, got, want)):
            raise Violation("wrong-fact", "%s%s: %s instead of %s" % (
                "" if group is None else "group %d: " % group, key, short(got), short(want)))


def scaled(x, base, units, limit, unit):
    if x < limit:
        return "%d %s" % (x, unit)
    for u in units:
        x = x / base
        if x < base or u == units[-1]:
            break
    return "%.1f %s" % (x, u)


def human_duration(d):
    """The three biggest units which are not null"""
    total = d.days * 86400 + d.seconds
    out = []
    for unit, n in (("years", 365 * 86400), ("days", 86400), ("hours", 3600), ("min", 60),
                    ("sec", 1)):
        if total >= n:
            out.append("%d %s" % (total // n, unit))
            total %= n
    if d.microseconds >= 1000:
        out.append("%d ms" % (d.microseconds // 1000))
    return " ".join(out[:3]) or "0 ms"


KILO = ["K", "M", "G", "T"]
TEXTS = {
    "duration": human_duration,
    "width": lambda x: "%s pixels" % x, "height": lambda x: "%s pixels" % x,
    "width_dpi": lambda x: "%s DPI" % x, "height_dpi": lambda x: "%s DPI" % x,
    "sample_rate": lambda x: scaled(x, 1000., ["kHz", "MHz", "GHz", "THz"], 1000, "Hz"),
    "bit_rate": lambda x: scaled(x, 1000., [k + "bit/sec" for k in KILO], 1000, "bits/sec"),
    "bits_per_sample": lambda x: "%d bits" % x,
    "frame_rate": lambda x: "%.1f fps" % x,
    "file_size": lambda x: scaled(x, 1024., [k + "B" for k in KILO], 10000, "bytes"),
    "compr_size": lambda x: scaled(x, 1024., [k + "B" for k in KILO], 10000, "bytes"),
    "compr_rate": lambda x: "%.1fx" % x,
    "altitude": lambda x: "%.1f meters" % x,
}
DATES = ("creation_date", "last_modification", "date_time_original", "date_time_digitized")


def check_texts(metadata, ctx):
    """The text of a value says the same"""
    for where, g in groups(metadata):
        for data in g:
            for item in data:
                v = item.value
                if data.key in DATES and isinstance(v, datetime.datetime):
                    want = {v.replace(microsecond=0).isoformat(" ")}
                elif data.key in DATES and isinstance(v, datetime.date):
                    want = {v.isoformat(), "%d" % v.year}
                elif data.key == "nb_channel":
                    # (The mode of the channels may be told instead)
                    want = {{1: "mono", 2: "stereo"}.get(v, "%d" % v)}
                    if item.text.lower().endswith((" channel", "stereo")) and v == 2 \
                            or item.text.lower() == "single channel" and v == 1:
                        want.add(item.text)
                elif data.key in TEXTS and not isinstance(v, (str, bool)):
                    want = {TEXTS[data.key](v)}
                elif isinstance(v, str) and data.key in ("title", "artist", "author", "album",
                                                         "comment", "copyright"):
                    want = {v}
                else:
                    continue
                ctx.probe("text")
                # (A precision may follow: "192.0 Kbit/sec (constant)")
                if item.text not in want and (
                        isinstance(v, str) or re.sub(r" \([^()]*\)$", "", item.text) not in want):
                    raise Violation("wrong-text", "%s of %s %s: %r instead of %s" % (
                        data.key, v, where, item.text, sorted(want)))


# ------------------------------------------------------------------------ commands

class Pipe(io.RawIOBase):
    """Standard output which breaks after some writes"""

    def __init__(self, limit=None):
        self.data = bytearray()
        self.limit = limit
        self.broken = False

    def writable(self):
        return True

    def write(self, data):
        if self.limit is not None and len(self.data) >= self.limit:
            self.broken = True
            raise BrokenPipeError(32, "Broken pipe (simulated)")
        self.data += bytes(data)
        return len(data)


def run_main(main, argv, disk, limit=None):
    """Execute a command on the simulated disk. Returns its exit status (None:
    died of an exception), the exception, its standard output and error."""
    pipe, epipe = Pipe(limit), Pipe()
    out = io.TextIOWrapper(io.BufferedWriter(pipe, 512), "utf-8", "strict")
    err = io.TextIOWrapper(io.BufferedWriter(epipe), "utf-8", "backslashreplace",
                           line_buffering=True)
    old = sys.argv
    exc = None
    tb = ""
    seams.env.fs = disk
    try:
        sys.argv = argv
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
        code = 0
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    except Violation:
        raise
    except Exception as e:
        code = None
        exc = "%s: %s" % (type(e).__name__, e)
        tb = traceback.format_exc()[-3000:]
    finally:
        sys.argv = old
        seams.env.fs = None
    for f in (out, err):
        try:
            f.flush()
        except OSError:
            pass
    return {"code": code, "exc": exc, "out": bytes(pipe.data).decode(),
            "err": bytes(epipe.data).decode(), "broken": pipe.broken, "tb": tb}


NAMES = ["a", "b c", "\xe9t\xe9", "\u4e2d", "x\udcff", "new\nline", "tab\t", "quote'\"", "%s",
         "100%"]


def gen_files(self, rng, count):
    """Documents of a command line: (name, document)"""
    out = []
    for i in range(count):
        k = rng.randrange(10)
        doc = self.gen_doc(rng, ["none"] if rng.chance(0.7) else None)
        base = "%s%d" % (rng.pick(NAMES) if rng.chance(0.3) else "doc", i)
        suffix = os.path.splitext(doc["file"].replace("gen:", "").replace(":", "_"))[1]
        if rng.chance(0.5):
            suffix = rng.pick(["", ".bin", ".txt", suffix])
        if k == 0:
            doc = rng.pick([{"missing": True}, {"hex": ""}, {"hex": "00"},
                            {"hex": rng.bytes_(50).hex()}, {"dir": True}])
        out.append([base + suffix, doc])
    return out


def file_data(doc):
    if "hex" in doc:
        return bytes.fromhex(doc["hex"])
    if "missing" in doc or "dir" in doc:
        return None
    return DocProp.content(doc)


def open_document(name, doc):
    """Parser of a file of a disk without faults (the name is used by some
    parsers), or None"""
    from hachoir.parser import createParser
    from hachoir.stream import InputStreamError
    seams.env.fs = make_disk([[name, doc]], None)
    try:
        return createParser(ROOT + "/" + name)
    except InputStreamError:
        return None
    finally:
        seams.env.fs = None


def make_disk(files, ctx, faults=()):
    disk = SimFS(ctx, faults)
    for name, doc in files:
        data = file_data(doc)
        if data is not None:
            disk.write_file(ROOT + "/" + name, data)
        elif "dir" in doc:
            disk.files[ROOT + "/" + name] = None
    return disk


def replay_faults(ctx, fired):
    for _, _, kind in fired:
        ctx.fault(kind)


class M02(DocProp):
    id = "M02"
    title = "hachoir-metadata gives for many files what it gives for each of them"
    runs = {"quick": 3000, "thorough": 100000}
    lists = ("files", "faults")
    synth = 0.0
    method = "seeded command lines of hachoir-metadata on a simulated disk with faults"
    rule = ("One run: hachoir-metadata is run on 1 to 6 files of a simulated disk (documents, "
            "damaged ones, missing and unreadable files), with random options; the lines of "
            "each file whose reads did not fail must be those of the library in a fresh "
            "process, and the exit status 0 if and only if all files were read. Non-trivial: "
            "two files had metadata.")
    real = DocProp.real + ["hachoir.metadata", "hachoir.core.log", "hachoir.core.cmd_line"]
    stubs = ["disk (simulated file system)", "command line, standard output and error"]

    setup = M01.setup

    def gen(self, rng, index, tier):
        return {"files": gen_files(self, rng, rng.pick([1, 2, 2, 3, 6])),
                "mode": rng.pick(["", "", "", "--type", "--mime"]),
                "raw": rng.chance(0.3), "level": rng.pick([None, None, 1, 3, 5, 9]),
                "quality": rng.pick([None, None, 0.0, 1.0]),
                "maxlen": rng.pick([None, None, 0, 7, 50]),
                "verbose": rng.pick(["", "", "--verbose", "--debug"]),
                "faults": gen_faults(rng, ["read", "read", "open"], span=60)
                if rng.chance(0.4) else []}

    @staticmethod
    def reference(name, doc, plan):
        """The lines of one file, by the library"""
        from hachoir.metadata import config, extractMetadata
        docs.quiet()
        if plan["maxlen"] is not None:
            config.MAX_STR_LENGTH = plan["maxlen"]
        if plan["raw"]:
            config.RAW_OUTPUT = True
        root = open_document(name, doc)
        if not root:
            return None
        if plan["mode"]:
            return [root.description if plan["mode"] == "--type" else root.mime_type]
        quality = 0.5 if plan["quality"] is None else plan["quality"]
        metadata = extractMetadata(root, quality)
        if not metadata:
            return None
        level = 9 if plan["level"] is None else plan["level"]
        lines = metadata.exportPlaintext(priority=level * 100 + 99, human=not plan["raw"])
        return lines or ["(no metadata, priority may be too small)"]

    def run(self, plan, ctx):
        from hachoir.core.tools import makePrintable
        files = plan["files"]
        want = [docs.in_child(self.reference, name, doc, plan) for name, doc in files]
        argv = ["hachoir-metadata"]
        if plan["mode"]:
            argv.append(plan["mode"])
        if plan["raw"]:
            argv.append("--raw")
        for key in ("level", "quality", "maxlen"):
            if plan[key] is not None:
                argv.append("--%s=%s" % (key, plan[key]))
        if plan["verbose"]:
            argv.append(plan["verbose"])
        argv += [ROOT + "/" + name for name, _ in files]
        ctx.op(*argv)

        def command():
            from hachoir.metadata import main
            from hachoir.core import config, log
            log.log.use_print = True
            config.quiet = False
            disk = make_disk(files, ctx, plan["faults"])
            res = run_main(main.main, argv, disk)
            res["fired"] = disk.fired
            res["paths"] = [p for p, kind in disk.fired_paths if kind != "short"]
            res["open"] = [h.path for h in disk.handles_open]
            return res
        res = docs.in_child(command)
        replay_faults(ctx, res["fired"])
        ctx.event(res["code"], res["exc"], res["out"])
        if res["exc"]:
            raise Violation("exception", "%s; %s" % (res["exc"], short(res["err"][-300:])))
        lines = res["out"].split("\n")
        if lines.pop() != "":
            raise Violation("output", "incomplete line")
        ok = True
        for (name, doc), w in zip(files, want):
            path = ROOT + "/" + name
            prefix = path + ": " if len(files) > 1 else ""

            def shown(line):
                line = prefix + line
                return makePrintable(line, "UTF-8")
            if path in res["paths"]:
                # with read errors, any line of this file
                head = shown("\0")[:-2]
                while lines and lines[0].startswith(head):
                    if not prefix and not lines:
                        break
                    lines.pop(0)
                ok = None
                continue
            if w is None:
                ok = False if ok is not None else None
                if path not in res["err"].encode("utf8").decode("utf8") and \
                        path.encode("utf8", "backslashreplace").decode() not in res["err"]:
                    raise Violation("no-message", "no error message for %r: %s" % (
                        path, short(res["err"])))
                ctx.probe("refused")
                continue
            text = [shown(x) for x in w]
            got = lines[:len(text)]
            if got != text:
                k = next((k for k in range(min(len(got), len(text))) if got[k] != text[k]),
                         min(len(got), len(text)))
                raise Violation("wrong-lines", "%s: %s instead of %s" % (
                    name, short(got[k:k + 2]), short(text[k:k + 2])))
            del lines[:len(text)]
            ctx.probe("compared")
        if lines:
            raise Violation("extra-lines", short(lines))
        if ok is not None and (res["code"] == 0) != ok:
            raise Violation("exit-status", "%s, files: %s" % (
                res["code"], [w is not None for w in want]))
        ctx.state(res["code"], [w and len(w) for w in want], len(res["fired"]))

    def simplify(self, plan):
        for key, v in (("mode", ""), ("raw", False), ("level", None), ("quality", None),
                       ("maxlen", None), ("verbose", "")):
            if plan[key] != v:
                yield dict(plan, **{key: v})
        for i, (name, doc) in enumerate(plan["files"]):
            if doc.get("mut"):
                new = list(plan["files"])
                new[i] = [name, dict(doc, mut=[])]
                yield dict(plan, files=new)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("compared", 0) > 1


# ------------------------------------------------------------------------ G01

WORD = re.compile(rb"[A-Za-z]{4,}")


def letters(rng, doc):
    """Put letters whose case is not simple into the texts of the document"""
    words = [m.start() for m in WORD.finditer(docs.load(doc["file"]))]
    for _ in range(rng.pick([1, 3, 10])):
        if words:
            doc["mut"].append(["bytes", rng.pick(words) + rng.randrange(3), rng.pick(
                ["df", "b5", "c0", "dd", "ff", "c39f", "c4b0", "e284aa", "c7b0"])])


class G01(DocProp):
    id = "G01"
    title = "hachoir-grep finds all the strings of the documents, where they are"
    runs = {"quick": 2500, "thorough": 80000}
    lists = ("files", "faults")
    synth = 0.0
    method = "seeded command lines of hachoir-grep on a simulated disk, and broken pipes"
    rule = ("One run: hachoir-grep is run on 1 to 3 documents of a simulated disk with random "
            "options; the lines must be the strings of a traversal of the tree, in order, with "
            "their addresses and paths; faults of the disk and of the standard output give "
            "a prefix of them. Non-trivial: a string was found.")
    real = DocProp.real + ["hachoir.grep", "hachoir.core.cmd_line"]
    stubs = ["disk (simulated file system)", "command line, standard output and error"]

    setup = M01.setup

    def gen(self, rng, index, tier):
        files = gen_files(self, rng, rng.pick([1, 1, 2, 3]))
        for f in files:
            while "file" in f[1] and len(docs.load(f[1]["file"])) > 60000:
                f[1] = self.gen_doc(rng, ["none"])
            if "file" in f[1] and not f[1]["mut"] and rng.chance(0.3):
                letters(rng, f[1])
        return {"files": files, "all": rng.chance(0.4),
                "own": [rng.randrange(100000), rng.randrange(30), rng.pick([1, 3, 5, 9, 20]),
                        rng.pick(["same", "upper", "lower", "swap"])]
                if rng.chance(0.5) else None,
                "pattern": rng.pick(["a", "e", "the", "A", "Hachoir", ".", "\xe9", "0", "tr"]),
                "options": [o for o in ("--percent", "--no-addr", "--no-value", "--case",
                                        "--path", "--verbose", "--quiet") if rng.chance(0.25)],
                "pipe": rng.randrange(3000) if rng.chance(0.2) else None,
                "faults": gen_faults(rng, ["read", "read", "open"], span=60)
                if rng.chance(0.2) else []}

    def own_pattern(self, plan):
        """A part of one of the strings of the documents, in another case"""
        n, start, length, case = plan["own"]
        values = []
        for name, doc in plan["files"]:
            r = docs.in_child(self.reference, name, doc, dict(
                plan, all=True, files=[0], options=["--no-addr"]))
            values += r[0] if r else []
        if not values:
            return plan["pattern"]
        v = values[n % len(values)]
        v = v[start % len(v):][:length]
        v = {"same": v, "upper": v.upper(), "lower": v.lower(), "swap": v.swapcase()}[case]
        if not v.strip() or v[0] == "-" or "\0" in v or not v.isprintable():
            return plan["pattern"]
        return v

    @staticmethod
    def reference(name, doc, plan):
        from hachoir.field import isString
        from hachoir.core.tools import makePrintable
        docs.quiet()
        root = open_document(name, doc)
        if not root:
            return None
        case = "--case" in plan["options"]
        pattern = None if plan["all"] else plan["pattern"] if case else plan["pattern"].lower()
        out = []

        def walk(fs):
            for f in fs:
                if f.is_field_set:
                    walk(f)
                elif isString(f):
                    v = f.value
                    if not v:
                        continue
                    if pattern and pattern not in (v if case else v.lower()):
                        continue
                    row = []
                    if len(plan["files"]) > 1:
                        row.append(makePrintable(ROOT + "/" + name, "UTF-8"))
                    if "--no-addr" not in plan["options"]:
                        a = f.absolute_address
                        row.append(str(a // 8) if a % 8 == 0 else "%u.%u" % (a // 8, a % 8))
                    if "--path" in plan["options"]:
                        row.append(f.path)
                    if "--no-value" not in plan["options"]:
                        row.append(makePrintable(v, "UTF-8"))
                    if row:
                        out.append(":".join(row))
        exc = None
        try:
            walk(root)
        except Exception as err:
            exc = "%s: %s" % (type(err).__name__, err)
        return [out, exc]

    def run(self, plan, ctx):
        files = plan["files"]
        if plan["own"] and not plan["all"]:
            plan = dict(plan, pattern=self.own_pattern(plan))
        want = [docs.in_child(self.reference, name, doc, plan) for name, doc in files]
        argv = ["hachoir-grep"] + plan["options"]
        argv += ["--all"] if plan["all"] else [plan["pattern"]]
        argv += [ROOT + "/" + name for name, _ in files]
        ctx.op(*argv)

        def command():
            from hachoir import grep
            from hachoir.core import config, log
            log.log.use_print = True
            config.quiet = False
            disk = make_disk(files, ctx, plan["faults"])
            res = run_main(grep.main, argv, disk, plan["pipe"])
            res["fired"] = disk.fired
            res["paths"] = [p for p, kind in disk.fired_paths if kind != "short"]
            return res
        res = docs.in_child(command)
        replay_faults(ctx, res["fired"])
        if res["broken"]:
            ctx.fault("epipe")
        ctx.event(res["code"], res["exc"], res["out"])
        full = []
        code = 0
        for w in want:
            if w is None:
                code = 1
                break
            full += w[0]
            if w[1]:
                code = None
                break
        text = "".join(x.encode("utf8", "backslashreplace").decode() + "\n" for x in full)
        faulty = bool(res["paths"]) or res["broken"]
        if res["exc"] and not faulty:
            if code is not None:
                raise Violation("exception", "%s" % res["exc"])
        if res["broken"] and not res["paths"] and code is not None and res["exc"]:
            raise Violation("exception", "broken pipe: %s" % res["exc"])
        if faulty:
            if not res["paths"] and not text.startswith(res["out"]):
                raise Violation("wrong-lines", "%s is not a beginning of %s" % (
                    short(res["out"][-200:]), short(text)))
            ctx.probe("prefix")
        else:
            if res["out"] != text:
                got, text = res["out"].split("\n"), text.split("\n")
                k = next((k for k in range(min(len(got), len(text))) if got[k] != text[k]),
                         min(len(got), len(text)))
                raise Violation("wrong-lines", "%s instead of %s (%d/%d lines)" % (
                    short(got[k:k + 2]), short(text[k:k + 2]), len(got), len(text)))
            if res["code"] != code:
                raise Violation("exit-status", "%s instead of %s" % (res["code"], code))
            if full:
                ctx.probe("found")
        ctx.state(len(full), code, faulty, tuple(plan["options"]))

    def simplify(self, plan):
        for i, (name, doc) in enumerate(plan["files"]):
            if doc.get("mut"):
                new = list(plan["files"])
                new[i] = [name, dict(doc, mut=[])]
                yield dict(plan, files=new)
        for i in range(len(plan["options"])):
            yield dict(plan, options=plan["options"][:i] + plan["options"][i + 1:])
        if plan["pipe"] is not None:
            yield dict(plan, pipe=None)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("found", 0) > 0
