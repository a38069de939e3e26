"""C01: hachoir-subfile finds the files.  C02: it saves them."""
import json
import os
import re

from simkit import core, docs, seams
from simkit.core import Violation, short
from simkit.fs import ROOT, SimFS, gen_faults
from props.metadata import run_main
from props.runtime import Clock, Limits
from props.trees import DocProp

DISK = ROOT + "/disk.img"
SLICE = 64 * 1024
TOO_BIG = 100 * 1024 * 1024
# intact documents which have to be found wherever they are: name -> size in
# the report (None: not known), see tools/subfile_table.py
with open(os.path.join(os.path.dirname(__file__), "subfile.json")) as _f:
    TABLE = json.load(_f)
PDF = b"%PDF-1.4\n1 0 obj\n<< /Type /Catalog >>\nendobj\n%%EOF\n"


def filler(kind, n, seed):
    if kind == "random":
        return core.make_rng(seed, "fill", n).randbytes(n)
    if kind == "text":
        return (b"the quick brown fox\n" * (n // 20 + 1))[:n]
    return {"zero": b"\0", "ff": b"\xff"}[kind] * n


def piece(p):
    if p[0] == "fill":
        return filler(*p[1:])
    if p[0] == "hex":
        return bytes.fromhex(p[1])
    if p[0] == "pdf":
        return PDF
    return DocProp.content(p[1])


def find_bytes(data, magic, start, end):
    pos = data.find(magic, start, end)
    while pos >= 0:
        yield pos
        pos = data.find(magic, pos + 1, end)


def find_regex(data, regex, start, end):
    regex = re.compile(regex, re.S)
    m = regex.search(data, start, end)
    while m:
        yield m.start()
        m = regex.search(data, m.start() + 1, end)


def signatures():
    """(function, signature, offset in the file, in bits, parser)"""
    from hachoir.parser.parser_list import HachoirParserList
    for cls in HachoirParserList.getInstance():
        tags = cls.getParserTags()
        for magic, offset in tags.get("magic", ()):
            yield find_bytes, magic, offset, cls
        for regex, offset in tags.get("magic_regex", ()):
            yield find_regex, regex, offset, cls


def reference(data, start, end, categories, ids):
    """What is in data, found without the search tool: (expected reports,
    all the valid files, regions which are not searched)"""
    from hachoir.stream import StringInputStream
    docs.quiet()
    hits = []
    for find, magic, offset, cls in signatures():
        tags = cls.getParserTags()
        if (categories or ids) and not (tags.get("category") in categories
                                        or tags.get("id") in ids):
            continue
        if offset % 8:
            continue
        # the whole signature is in the searched part
        for pos in find(data, magic, start, end):
            if pos * 8 - offset >= 0:
                hits.append((pos, pos - offset // 8, cls))
    hits.sort(key=lambda h: h[:2])
    want, every, regions = [], [], []
    limit = 0
    cache = {}
    for _, pos, cls in hits:
        if (pos, cls) not in cache:
            try:
                parser = cls(StringInputStream(data[pos:]), validate=True)
                size = parser.content_size
                big = size is not None and size // 8 >= TOO_BIG
                cache[pos, cls] = (pos, None if size is None else size // 8,
                                   None if big else parser.description,
                                   parser.filename_suffix or "", size,
                                   cls.getParserTags().get("id"))
            except Exception:
                cache[pos, cls] = None
        item = cache[pos, cls]
        if item is None:
            continue
        every.append(item)
        if pos * 8 < limit:
            continue
        want.append(item)
        size = item[4]
        if size is not None and cls.getParserTags().get("subfile") == "skip":
            limit = pos * 8 + size
            regions.append([pos, pos + size // 8])
    return want, every, regions


class SubfileProp(DocProp):
    synth = 0.0
    lists = ("pieces", "faults", "jumps")

    def setup(self):
        DocProp.setup(self)
        self.small = [n for n in docs.corpus_names() if len(docs.load(n)) < 120000]

    def gen_pieces(self, rng):
        out = []
        total = 0
        for _ in range(rng.pick([1, 1, 2, 3, 5])):
            if rng.chance(0.6):
                # place a signature on the boundary of two blocks
                k = rng.pick([1, 1, 2, 3]) * SLICE
                n = k - total - rng.pick([0, 1, 2, 3, 4, 5, 7, 8, 12, 20, 30, 43, 100, 257, 260])
                if n < 0:
                    n = rng.randrange(60)
            else:
                n = rng.pick([0, 0, 1, 7, 300, 5000, rng.randrange(70000)])
            if n:
                out.append(["fill", rng.pick(["zero", "text", "ff", "random", "random"]), n,
                            rng.randrange(1000)])
            total += n
            k = rng.randrange(10)
            if k == 0:
                # the beginning of a signature
                item = ["hex", rng.pick([b"MZ", b"MZ\x90\0\3\0", b"BM", b"PK\3", b"RIFF", b"\0" * 40,
                                         b"\x1f\x8b\x08", b"\0\0\1\0", b"FORMabcdAIF",
                                         b"PACK", b"OggS", b"\xff\xd8\xff"]).hex()]
            elif k == 1:
                item = ["pdf"]
            else:
                while True:
                    if rng.chance(0.6):
                        doc = {"file": rng.pick(sorted(set(self.small) & set(TABLE))), "mut": []}
                        doc["parser"] = "?"
                    else:
                        doc = self.gen_doc(rng, ["none"] if rng.chance(0.5) else None)
                    if len(docs.load(doc["file"])) < 120000 or rng.chance(0.05):
                        break
                item = ["doc", doc]
            total += len(piece(item))
            out.append(item)
        return out, total

    def gen_options(self, rng, total):
        cats = []
        ids = []
        if rng.chance(0.15):
            cats = [rng.pick(["archive", "audio", "image", "file_system", "misc", "nothing",
                              "program", "video", "container"])
                    for _ in range(rng.pick([1, 2]))]
        if rng.chance(0.15):
            ids = [rng.pick(sorted(docs.parser_ids())) for _ in range(rng.pick([1, 3]))]
        return {"offset": rng.pick([0, 0, 0, 1, 300, rng.randrange(total + 5)]),
                "size": rng.pick([None, None, None, total, rng.randrange(total + 1), 100]),
                "cats": cats, "ids": ids, "quiet": rng.chance(0.5), "debug": rng.chance(0.3),
                "api": rng.chance(0.15),
                "tick": rng.pick([0, 0.001, 0.4, 5]),
                "jumps": [[rng.randrange(30), rng.pick([-3600, -1, 1, 3600, 1e9])]
                          for _ in range(rng.pick([0, 0, 0, 1, 2]))]}

    def command(self, plan, ctx, data, outdir):
        """Run the tool. Returns the result of run_main and what was written"""
        from hachoir.core import config, log
        log.log.use_print = True
        config.quiet = False
        disk = SimFS(ctx, plan.get("faults", ()), plan.get("space"))
        disk.write_file(DISK, data)
        for name in plan.get("there", ()):
            disk.files[ROOT + "/out"] = None
            disk.write_file(ROOT + "/out/" + name, b"old content " * 1000)
        jumps = {}
        for k, v in plan["jumps"]:
            jumps[k] = jumps.get(k, 0) + v
        clock = Clock(ctx)
        count = [0]

        class Ticks:
            def time(self):
                clock.advance(plan["tick"])
                count[0] += 1
                if count[0] in jumps:
                    ctx.fault("clock_jump")
                    clock.jump(jumps[count[0]])
                return clock.time()
            monotonic = perf_counter = process_time = time

        argv = ["hachoir-subfile"]
        for key, name in (("cats", "category"), ("ids", "parser")):
            if plan[key]:
                argv.append("--%s=%s" % (name, ",".join(plan[key])))
        if plan["offset"]:
            argv.append("--offset=%d" % plan["offset"])
        if plan["size"] is not None:
            argv.append("--size=%d" % plan["size"])
        argv += ["--" + x for x in ("quiet", "debug") if plan[x]]
        argv.append(DISK)
        if outdir:
            argv.append(outdir)

        def api():
            from hachoir.stream import FileInputStream
            from hachoir.subfile.search import SearchSubfile
            import sys
            config.quiet = True
            with FileInputStream(DISK) as stream:
                s = SearchSubfile(stream, plan["offset"], plan["size"])
                s.verbose = not plan["quiet"]
                s.debug = plan["debug"]
                if outdir:
                    s.setOutput(outdir)
                if plan["cats"] or plan["ids"]:
                    s.loadParsers(plan["cats"], plan["ids"])
                ok = s.main()
            sys.exit(0 if ok else 1)

        from hachoir.subfile.main import main
        seams.env.clock = Ticks()
        seams.env.limits = Limits(ctx, -1, -1, True, ())
        interrupted = False
        try:
            res = run_main(api if plan["api"] else main, argv, disk)
        except KeyboardInterrupt:
            res = {"code": None, "exc": "KeyboardInterrupt", "out": "", "err": "", "broken": 0}
            interrupted = True
        finally:
            seams.env.clock = seams.env.limits = None
        res["fired"] = [list(x) for x in disk.fired]
        res["paths"] = [p for p, kind in disk.fired_paths if kind != "short"]
        res["lost"] = [p for p, kind in disk.fired_paths if kind != "short"]
        res["full"] = disk.space == 0
        res["interrupted"] = interrupted
        res["open"] = [h.path for h in disk.handles_open]
        res["changed"] = disk.content(DISK) != data
        res["files"] = {p: bytes(d).hex() if d is not None else None
                        for p, d in disk.files.items() if p != DISK and p != ROOT}
        return res

    LINE = re.compile(r"\[\+\] File at (\d+)(?: size=(\d+) \([^)]*\))?: (.*)", re.S)

    def reports(self, res):
        """Parsed lines of the report: (offset, size, rest of the line)"""
        out = []
        for block in re.split(r"\n(?=\[\+\] File at )", "\n" + res["out"])[1:]:
            m = self.LINE.match(block)
            if not m:
                raise Violation("output", short(block))
            rest = m.group(3)
            k = rest.find("\n[ Match statistics ]")
            if k >= 0:
                rest = rest[:k]
            rest = rest.rstrip("\n")
            out.append((int(m.group(1)), int(m.group(2)) if m.group(2) else None, rest))
        return out

    def simplify(self, plan):
        for key, v in (("quiet", True), ("debug", False), ("cats", []), ("ids", []),
                       ("offset", 0), ("size", None), ("api", False), ("tick", 0)):
            if plan[key] != v:
                yield dict(plan, **{key: v})


class C01(SubfileProp):
    id = "C01"
    title = "A search of files reports all the files of a disk, and only them"
    runs = {"quick": 900, "thorough": 60000}
    method = ("seeded disk images, searched on a simulated disk with short reads and a clock "
              "which jumps")
    rule = ("One run: hachoir-subfile searches an image made of documents (damaged or not) and "
            "of fillers, with signatures on the boundaries of its blocks. The reports must be "
            "the ones of a naive search of every signature of every parser, and intact "
            "documents of the corpus must be in them. Non-trivial: one file was found.")
    real = DocProp.real + ["hachoir.subfile", "hachoir.regex"]
    stubs = ["disk (simulated file system)", "clock", "command line, output", "resource limits"]

    def gen(self, rng, index, tier):
        pieces, total = self.gen_pieces(rng)
        plan = {"pieces": pieces}
        plan.update(self.gen_options(rng, total))
        plan["faults"] = [["read", rng.randrange(60), "short"]
                          for _ in range(rng.pick([0, 0, 2, 8]))]
        return plan

    def run(self, plan, ctx):
        parts = [piece(p) for p in plan["pieces"]]
        for p in plan["pieces"]:
            if p[0] == "doc":
                docs.count_damage(ctx, p[1]["mut"])
        data = b"".join(parts)
        start = plan["offset"]
        end = len(data) if plan["size"] is None else min(len(data), start + plan["size"])
        want, every, regions = docs.in_child(
            reference, data, start, end, plan["cats"], plan["ids"])
        res = docs.in_child(self.command, plan, ctx, data, None)
        for _, _, kind in res["fired"]:
            ctx.fault(kind)
        ctx.op(len(data), plan["offset"], plan["size"], res["code"])
        if res["exc"] or res["code"] != 0:
            raise Violation("exit-status", "%s %s; %s" % (
                res["code"], res["exc"], short(res["err"][-300:])))
        got = self.reports(res)
        ctx.event(got)
        want = sorted(((w[0], w[1], w[2]) for w in want), key=repr)
        left = sorted(got, key=repr)
        for w in want:
            k = next((k for k, g in enumerate(left) if g[:2] == tuple(w[:2])
                      and (w[2] is None or g[2] == w[2])), None)
            if k is None:
                raise Violation("missed", "%s is not reported at %d (%d after a boundary): %s" % (
                    short(w[2]), w[0], (w[0] - start) % SLICE,
                    short([g for g in got if g[0] == w[0]])))
            left.pop(k)
        if left:
            raise Violation("extra", "%s is reported, want %s" % (
                short(left[0]), short([w for w in want if w[0] == left[0][0]])))
        pos = 0
        if not plan["cats"] and not plan["ids"]:
            for p, d in zip(plan["pieces"], parts):
                known = (p[0] == "doc" and not p[1]["mut"] and p[1]["file"] in TABLE
                         and pos >= start and pos + len(d) <= end) or \
                    (p[0] == "pdf" and pos >= start and pos + len(d) <= end)
                if known and not any(a <= pos < b for a, b in regions if a != pos):
                    size = TABLE[p[1]["file"]] if p[0] == "doc" else None
                    if not any(g[0] == pos and (size is None or g[1] == size) for g in got):
                        raise Violation("known-missed", "%s is not reported at %d: %s" % (
                            p[1:], pos, short([g for g in got if g[0] == pos])))
                    ctx.probe("known")
                pos += len(d)
        if plan["debug"] and not plan["api"]:
            m = re.search(r"Total: (\d+) hit/(\d+) valid", res["out"])
            if not m or int(m.group(2)) != len(got) or int(m.group(1)) < int(m.group(2)):
                raise Violation("statistics", "%d reports, %s" % (
                    len(got), short(res["out"][-200:])))
        if got:
            ctx.probe("found", len(got))
        ctx.state(sorted({(g[2][:20]) for g in got}), plan["offset"] > 0, len(data) // SLICE)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("found", 0) > 0


class C02(SubfileProp):
    id = "C02"
    title = "Files which are found are saved byte for byte, or their loss is shown"
    runs = {"quick": 800, "thorough": 60000}
    method = "seeded disk images, searched and saved on a simulated disk which fails"
    rule = ("One run: hachoir-subfile saves the files of an image; reads, writes, mkdir, open "
            "and close fail as the plan says, the disk becomes full, the user interrupts. Each "
            "file which is reported as saved without an error has the bytes of the image, and "
            "no fault ends in an exit status of success without a message. Non-trivial: a file "
            "was saved.")
    real = DocProp.real + ["hachoir.subfile", "hachoir.stream.output", "io"]
    stubs = ["disk (simulated file system)", "clock", "command line, output", "resource limits"]

    def gen(self, rng, index, tier):
        pieces, total = self.gen_pieces(rng)
        plan = {"pieces": pieces}
        plan.update(self.gen_options(rng, total))
        if rng.chance(0.7):
            plan["cats"] = plan["ids"] = []
        plan["faults"] = []
        if rng.chance(0.7):
            plan["faults"] = gen_faults(rng, ["write", "write", "close", "open", "read", "mkdir"],
                                        span=20)
            if rng.chance(0.3):
                plan["faults"].append(["read", rng.randrange(rng.pick([3, 10, 100])),
                                       rng.pick(["interrupt", "memory"])])
        plan["space"] = rng.pick([None, None, None, 0, 1, 4096, rng.randrange(total + 1)])
        plan["there"] = rng.pick([[], [], ["file-0001"], ["other"], ["file-0001.jpg"]])
        return plan

    def run(self, plan, ctx):
        data = b"".join(piece(p) for p in plan["pieces"])
        start = plan["offset"]
        end = len(data) if plan["size"] is None else min(len(data), start + plan["size"])
        want, every, _ = docs.in_child(reference, data, start, end, plan["cats"], plan["ids"])
        res = docs.in_child(self.command, plan, ctx, data, ROOT + "/out")
        for _, _, kind in res["fired"]:
            ctx.fault(kind)
        if res["full"]:
            ctx.fault("disk_full")
        ctx.op(len(data), res["code"], res["exc"])
        kinds = {kind for _, _, kind in res["fired"]} - {"short"}
        if res["full"]:
            kinds.add("enospc")
        if not kinds and (res["exc"] or res["code"] != 0):
            raise Violation("exit-status", "%s %s; %s" % (
                res["code"], res["exc"], short(res["err"][-300:])))
        # an error of close() may hide the interruption: it is shown then
        if kinds & {"interrupt"} and res["code"] == 0 and \
                (kinds == {"interrupt"} or "[err!]" not in res["err"]):
            raise Violation("exit-status", "interrupted, exit status 0")
        if res["exc"] and not res["exc"].startswith(("OSError", "PermissionError", "InputStream",
                                                     "ReadStream", "BlockingIOError")):
            if not kinds & {"interrupt", "memory"}:
                raise Violation("exception", "%s; %s" % (res["exc"], short(res["err"][-300:])))
        if res["changed"]:
            raise Violation("image-changed", "the searched image was changed")
        got = self.reports(res)
        ctx.event(got, res["code"])
        failed = res["code"] != 0
        seen = set()
        names = {ROOT + "/out/" + n for n in plan["there"]}
        searched = end      # size of the searched part
        valid = {(w[0], w[1]): w for w in every}
        for offset, size, text in got:
            w = valid.get((offset, size))
            if w is None:
                if not kinds or not any(e[0] == offset for e in every):
                    raise Violation("extra", "%s at %s is not a file of the image" % (
                        short(text), offset))
                continue
            copied = re.search(r" => (.*)$", text, re.S)
            should = w[4] and w[1] < TOO_BIG and not (offset == 0 and w[4] == searched * 8)
            if should and not copied or copied and not should:
                raise Violation("not-saved", "%s %s: %s" % (offset, size, short(text)))
            if not copied:
                continue
            name = copied.group(1)
            if name in seen:
                raise Violation("same-name", name)
            seen.add(name)
            if not name.startswith(ROOT + "/out/") or "/" in name[len(ROOT) + 5:]:
                raise Violation("bad-name", name)
            truth = data[offset:offset + size]
            content = res["files"].get(name)
            content = None if content is None else bytes.fromhex(content)
            if content == truth and len(truth) == size:
                ctx.probe("saved")
                continue
            # something is missing: it is shown
            ctx.probe("not-whole")
            if not failed and "[err!]" not in res["err"]:
                raise Violation("lost-silently", "%s: %s of %d bytes, want %d; faults %s" % (
                    name, None if content is None else len(content), len(data), size,
                    sorted(kinds)))
            if not kinds and not (content is not None and truth.startswith(content)):
                raise Violation("wrong-content", name)
        if kinds & {"enospc", "eio", "close", "eacces", "emfile"} and \
                any(p and p.startswith(ROOT + "/out") for p in res["paths"]) and not failed \
                and "[err!]" not in res["err"]:
            raise Violation("lost-silently", "%s: no message and exit status 0" % res["fired"])
        if not kinds:
            # every file is there, and nothing else
            left = sorted(w[:2] for w in want)
            if sorted((g[0], g[1]) for g in got) != [tuple(x) for x in left]:
                raise Violation("missed", "%s instead of %s" % (
                    short([g[:2] for g in got]), short(left)))
        for name, content in res["files"].items():
            if content is None or name in seen:
                continue
            if name in names and bytes.fromhex(content) == b"old content " * 1000:
                continue
            if not kinds:
                raise Violation("other-file", name)
        if res["open"]:
            raise Violation("left-open", short(res["open"]))
        ctx.state(len(seen), sorted(kinds), failed)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("saved", 0) > 0


# generated documents whose size is in them
SIZED = set("""aiff ani au avi bmp cab cda f.aiff f.ani f.asf f.au f.avi f.bmp f.cab f.dated f.gif
f.ico f.jpeg f.mkv f.mp3 f.ogg f.ole2 f.png f.program f.swf f.tar f.theora f.wav f.wmf f.zip gif
id3 midi png tar wav wave zip""".split())
# not in all of them
MAYBE = {"f.program", "f.wmf"}
# without a signature hachoir-subfile searches
UNSIGNED = {"f.ico", "f.mp3", "f.tar", "id3", "tar"}
# other bytes may be read as more of the same document
LONGER = {"f.mp3", "id3"}
# the end (zeros) is not counted
PADDED = {"tar", "f.tar"}


class C03(SubfileProp):
    id = "C03"
    title = "The size of a document is found, whatever follows it"
    runs = {"quick": 5000, "thorough": 100000}
    lists = ("ops", "faults", "jumps")
    method = ("seeded documents followed by other data, histories of accesses, read errors, and "
              "images searched on a simulated disk")
    rule = ("One run: an intact generated document is followed by zeros, text, random bytes or "
            "another document. Its parser gives its size: at once, after a history of accesses "
            "and short reads, or after read errors stopped; or hachoir-subfile saves it from an "
            "image on a simulated disk, and the saved file is the document. Non-trivial: a size "
            "was compared.")
    real = DocProp.real + ["hachoir.subfile", "hachoir.stream.output"]
    stubs = ["storage medium (file-like object with faults)", "disk (simulated file system)",
             "clock", "command line, output"]

    def gen(self, rng, index, tier):
        kind = rng.pick(sorted(SIZED))
        tail = rng.pick(["none", "zero", "text"] if kind in LONGER else
                        ["none", "zero", "text", "ff", "random", "same", "doc"])
        plan = {"doc": "gen:%s:%d" % (kind, rng.randrange(100000)), "before": [],
                "how": rng.pick(["parser", "parser", "errors", "tool"]),
                "ops": docs.gen_access(rng, rng.pick([0, 0, 3, 20])), "faults": [],
                "after": ["fill", "zero", 0, 0]}
        if tail in ("zero", "text", "ff", "random"):
            plan["after"] = ["fill", tail, rng.pick([1, 7, 600, 5000, 70000]),
                             rng.randrange(1000)]
        elif tail == "same":
            plan["after"] = ["gen", plan["doc"]]
        elif tail == "doc":
            plan["after"] = ["gen", "gen:%s:%d" % (rng.pick(sorted(SIZED)),
                                                   rng.randrange(100000))]
        kinds = {"parser": ["short"], "errors": ["eio", "eio", "short", "eintr", "timeout"]}.get(
            plan["how"])
        if kinds:
            plan["faults"] = sorted([rng.randrange(rng.pick([5, 30, 300])), rng.pick(kinds)]
                                    for _ in range(rng.pick([0, 1, 3, 8])))
        else:
            plan["before"] = ["fill", rng.pick(["zero", "text"]), rng.pick(
                [0, 1, 300, SLICE - 1, SLICE - 7, SLICE - 40, SLICE, 70000]), 0]
            plan["faults"] = [["read", rng.randrange(60), "short"]
                              for _ in range(rng.pick([0, 0, 2, 8]))]
            plan.update({"offset": 0, "size": None, "cats": [], "ids": [], "quiet": True,
                         "debug": False, "api": rng.chance(0.2), "tick": 0.001, "jumps": []})
        return plan

    @staticmethod
    def bytes(p):
        return docs.load(p[1]) if p[0] == "gen" else filler(*p[1:])

    def run(self, plan, ctx):
        import io
        from hachoir.stream import InputIOStream
        from props.streams import Faults, RawSource
        data = docs.load(plan["doc"])
        kind = plan["doc"].split(":")[1]
        pid = docs.GENERATED_ID[kind]
        after = self.bytes(plan["after"])
        ctx.probe("tail." + (plan["after"][1].split(":")[0]))
        if plan["how"] == "tool":
            return self.tool(plan, ctx, kind, data, after)
        faults = Faults(ctx, plan["faults"])
        raw = RawSource(data + after, faults)
        if plan["how"] == "errors":
            faults.enabled = False
            stream = InputIOStream(raw)
            faults.enabled = True
            try:
                root = docs.parser_class(pid)(stream)
                self.access(plan, ctx, root)
                root.content_size
            except Exception:
                ctx.probe("failed")
            faults.enabled = False
            if faults.fired:
                ctx.probe("faults.fired")
        else:
            stream = InputIOStream(io.BufferedReader(raw))
        root = docs.parser_class(pid)(stream)
        if root.validate() is not True:
            raise Violation("refused", "%s followed by %s: %s" % (
                pid, plan["after"][:3], short(root.validate())))
        if plan["how"] == "parser":
            self.access(plan, ctx, root)
        size = root.content_size
        ctx.probe("size")
        ctx.event(kind, size)
        if not self.right(kind, data, size):
            raise Violation("wrong-size", "%s of %d bytes followed by %s: %s" % (
                pid, len(data), plan["after"][:3], "unknown" if size is None else
                "%s bytes" % (size / 8)))
        ctx.state(kind, plan["how"], plan["after"][1])

    @staticmethod
    def right(kind, data, size):
        if size is None:
            return kind in MAYBE
        if kind in PADDED:
            return 512 <= size // 8 <= len(data) and not data[size // 8:].strip(b"\0")
        return size == len(data) * 8

    @staticmethod
    def access(plan, ctx, root):
        access = docs.Access([root], ctx)
        for op in plan["ops"]:
            ctx.op(*op)
            access.do(op)

    def tool(self, plan, ctx, kind, data, after):
        before = self.bytes(plan["before"])
        res = docs.in_child(self.command, plan, ctx, before + data + after, ROOT + "/out")
        for _, _, k in res["fired"]:
            ctx.fault(k)
        if res["exc"] or res["code"] != 0:
            raise Violation("exit-status", "%s %s; %s" % (
                res["code"], res["exc"], short(res["err"][-300:])))
        got = [g for g in self.reports(res) if g[0] == len(before)]
        ctx.event(got)
        if kind in UNSIGNED:
            return
        ok = [g for g in got if self.right(kind, data, None if g[1] is None else g[1] * 8)]
        if not ok:
            raise Violation("not-found", "%s of %d bytes at %d followed by %s: %s" % (
                kind, len(data), len(before), plan["after"][:3], short(got)))
        ctx.probe("size")
        if not before and not after or ok[0][1] is None:
            # (Not saved: it is the whole image)
            return
        m = re.search(r" => (.*)$", ok[0][2], re.S)
        content = m and res["files"].get(m.group(1))
        if content is None or bytes.fromhex(content) != data[:ok[0][1]]:
            raise Violation("not-saved", "%s: %s" % (kind, short(ok[0])))
        ctx.probe("saved")
        ctx.state(kind, "tool", plan["after"][1])

    def simplify(self, plan):
        name, kind, seed = plan["doc"].split(":")
        for s in range(5):
            if int(seed) > s:
                yield dict(plan, doc="gen:%s:%d" % (kind, s))
        if plan["after"][0] == "gen":
            yield dict(plan, after=["fill", "zero", 600, 0])

    def sample(self, plan):
        return short(json.dumps(plan), 500)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("size", 0) > 0
