"""S04: contents stored in a document (files of an archive, compressed data,
fragmented streams), read in any order."""
import gc

from simkit import docs
from simkit.core import Violation, short
from props.trees import DocProp, build

MAX = 1 << 20           # bytes read of a content
CHUNK = 4096


def is_link(f):
    from hachoir.field import Link
    return isinstance(f, Link)


def follow(f):
    if is_link(f):
        try:
            return f.value
        except Exception:
            return None
    return f


def find_contents(root, limit, big=8 * 32):
    """Paths of the fields of the tree which may be opened: fields which are
    fragments, sub files, compressed... and some plain ones. Returns two lists
    of (path, links): links are the paths of the links to follow before."""
    from hachoir.field import Field
    from hachoir.parser.file_system.fat import Directory
    special, plain = [], []
    seen = set()
    todo = [(root, [])]
    n = 0
    # Following a link of a FAT file system replaces the raw field of the cluster
    fat = root.PARSER_TAGS["id"].startswith("fat")
    while todo and n < limit:
        fs, links = todo.pop(0)
        for f in fs:
            n += 1
            if n >= limit:
                break
            path = f.path
            link = is_link(f)
            f = follow(f)
            if f is None or path in seen or fat and f.name.startswith("sector"):
                continue
            if link and (not fat or path.endswith("/first")):
                continue
            if path.endswith("/next") and not isinstance(f, Directory):
                continue
            seen.add(path)
            if f.is_field_set:
                todo.append((f, links + [path] if link else links))
            if ("_createInputStream" in vars(f)
                    or type(f)._createInputStream is not Field._createInputStream):
                special.append((path, links))
            elif f.size >= big:
                plain.append((path, links))
    return special, plain, sorted(seen)


def reach(root, path, links):
    for p in links:
        root[p].value
    return follow(root[path])


def nested(field):
    """Values of the fields of the document stored in a field"""
    from hachoir.parser.guess import guessParser
    try:
        parser = guessParser(field.getSubIStream())
        return [bytes(f.value) for f in parser if f.name.startswith("file[")]
    except Exception:
        return []


def reference(field):
    """(bytes, complete): sequential read of the content of a field"""
    from hachoir.stream import InputStreamError
    try:
        stream = field.getSubIStream()
    except Exception as err:
        return None, type(err).__name__, 0
    data = b""
    while len(data) < MAX:
        n = CHUNK
        size = stream.size      # may be known only when the end is reached
        if size is not None:
            n = min(n, size // 8 - len(data))
            if n <= 0:
                return data, "end", stream.size
        try:
            _, d, missing = stream.read(len(data) * 8, n * 8)
        except Exception as err:
            return data, type(err).__name__, 0
        data += d[:n]
        if missing:
            return data, "end", stream.size
    return data, "more", 0


class S04(DocProp):
    id = "S04"
    title = "Contents stored in a document do not depend on how they are read"
    runs = {"quick": 1500, "thorough": 50000}
    synth = 0.0
    generated = 0.7
    structured = 0.1
    kinds = ["zip", "tar", "gzip", "bzip2", "ar", "zlib", "cab", "cab", "fat12", "fat16", "fat32",
             "fat16"]
    rule = ("One run: a document with contents (archive members, compressed and fragmented "
            "data, file systems) is opened twice; in the first the contents are read in "
            "order, one by one; in the second a random schedule opens, reads at random "
            "offsets, parses and drops several contents, interleaved with accesses to the "
            "tree. Each read must return the bytes of the reference; contents of generated "
            "archives and file systems must be the ones which were stored. Non-trivial: at "
            "least two reads compared.")
    assumptions = ["contents are compared up to 1 MB"]
    real = DocProp.real + ["zlib, bz2 (Python)"]

    def gen(self, rng, index, tier):
        plan = self.gen_doc(rng, ["none", "none", "none", "flip", "cut", "mix", "zero"])
        plan["limit"] = rng.pick([400, 1500, 4000])
        plan["ops"] = [[rng.randrange(24), rng.randrange(1000), rng.randrange(1 << 20),
                        rng.randrange(1 << 16)] for _ in range(rng.pick([5, 15, 40]))]
        return plan

    def run(self, plan, ctx):
        docs.count_damage(ctx, plan["mut"])
        data = self.content(plan)
        try:
            first = build(plan, data)
            generated = plan["file"].startswith("gen:")
            special, plain, seen = find_contents(first, plan["limit"], 8 if generated else 256)
        except Exception:
            ctx.probe("refused")
            return
        links = dict(special + plain)
        special = [p for p, _ in special]
        plain = [p for p, _ in plain]
        paths = special + plain[:10]
        if plan["parser"] == "zlib" and not plan["mut"]:
            self.inflate(plan, data, ctx)
            if plan["file"].startswith("gen:"):
                return
        stored = [] if plan["mut"] else [x for x in docs.expected(plan["file"]) if x]
        refs = {}

        def ref(path):
            if path not in refs:
                refs[path] = reference(reach(first, path, links[path]))
            return refs[path]

        if stored and plan["limit"] >= 4000:
            contents = {ref(p)[0] for p in special + plain}
            missing = [x for x in stored if x not in contents]
            if missing:
                for p in special:
                    contents.update(nested(reach(first, p, links[p])))
            for x in missing:
                if x not in contents:
                    raise Violation("content-not-found", "%s: a stored file of %d bytes (%s) "
                                    "is not among the %d contents" % (
                                        plan["file"], len(x), short(x, 60), len(contents)))
            ctx.probe("stored.checked", len(stored))
        if not paths:
            return
        second = build(plan, data)
        access = docs.Access([second], ctx, paths=seen)
        opened = []
        for code, a, b, c in plan["ops"]:
            if code < 5 or not opened:
                path = paths[a % min(len(paths), 1 + b % 12)]
                ctx.op("open", path)
                try:
                    field = reach(second, path, links[path])
                except Exception as err:
                    raise Violation("no-field", "%s: %r" % (path, err)) from err
                try:
                    opened.append((path, field.getSubIStream()))
                except Exception as err:
                    if ref(path)[0] is not None:
                        raise Violation("cannot-open", "%s: %r" % (path, err)) from err
                else:
                    if (opened[-1][1].size or 0) % 8 or field.absolute_address % 8:
                        # bits: not a content
                        opened.pop()
                if len(opened) > 6:
                    opened.pop(0)
            elif code < 17:
                path, stream = opened[a % len(opened)]
                self.read(ctx, path, stream, ref(path), code, b, c)
            elif code == 17:
                path, stream = opened[a % len(opened)]
                content, end, _ = ref(path)
                if end == "end" and content and (stream.size or 0) % 8 == 0:
                    ctx.op("file", path)
                    f = stream.file()
                    f.seek(b % (len(content) + 1))
                    got = f.read(1 + c % 9000)
                    want = content[b % (len(content) + 1):][:1 + c % 9000]
                    if got != want:
                        raise Violation("wrong-content", "file view of %s: %s instead of %s"
                                        % (path, short(got, 100), short(want, 100)))
            elif code == 18:
                path = opened.pop(a % len(opened))[0]
                stream = None
                ctx.op("drop", path)
                if b % 4:
                    opened = [x for x in opened if x[0] != path]
                    gc.collect()
                if b % 4 == 3:
                    # opened again, first read at its end
                    stream = reach(second, path, links[path]).getSubIStream()
                    opened.append((path, stream))
                    self.read(ctx, path, stream, ref(path), 8, b, c)
            elif code == 19:
                # parse the content
                from hachoir.parser.guess import guessParser
                path, stream = opened[a % len(opened)]
                ctx.op("parse", path)
                try:
                    parser = guessParser(stream)
                except Exception:
                    parser = None
                if parser is not None:
                    ctx.probe("content.parsed")
                    access.pool.append(parser)
            else:
                code = 20 + a % 2 if b % 3 == 0 else a % docs.NOPS
                access.do([code, b // 7 % 1000, c % 1000])

    def inflate(self, plan, data, ctx):
        """The detailed parser of zlib data also inflates them"""
        import zlib
        from hachoir.parser.archive.zlib import zlib_inflate
        from hachoir.stream import StringInputStream
        if len(data) > 20000:
            return
        got = bytes(zlib_inflate(StringInputStream(data)))
        want = zlib.decompress(data)
        ctx.probe("inflate.compared")
        if got != want:
            raise Violation("wrong-content", "zlib_inflate(%s): %d bytes (%s) instead of %d "
                            "(%s)" % (plan["file"], len(got), short(got, 80), len(want),
                                      short(want, 80)))

    def read(self, ctx, path, stream, ref, code, b, c):
        content, end, _ = ref
        if content is None:
            return
        n = len(content)
        if code < 7:
            off = b % (n + 1)
        elif code == 7:
            off = b % (n + 1) // 512 * 512
        elif code < 12:
            off = max(0, n - b % 300)
        else:
            off = b % (n + 2000)
        if code in (8, 9) and off < n:
            size = n - off          # exactly up to the end
        else:
            size = 1 + (c % 17 if code % 3 == 0 else c % 700 if code % 3 == 1 else c)
        ctx.op("read", path, off, size)
        inside = off + size <= n
        try:
            shift, got, missing = stream.read(off * 8, size * 8)
        except Exception as err:
            if not inside:
                return          # the reference fails there too
            if inside and end not in ("end", "more"):
                # blocks are read as a whole
                ctx.probe("read.error_near")
                return
            raise Violation("read-raises", "read(%d, %d) of %s (%d bytes, %s): %r" % (
                off, size, path, n, end, err)) from err
        if end == "more" and off + size > n:
            return
        if inside and (missing or len(got) < size):
            raise Violation("lost-content", "read(%d, %d) of %s: %d bytes of %d" % (
                off, size, path, len(got), n))
        if end == "end" and not inside and not missing:
            raise Violation("read-past-end", "read(%d, %d) of %s of %d bytes: no missing" % (
                off, size, path, n))
        if shift or not (content[off:off + size].startswith(got[:max(0, n - off)])):
            raise Violation("wrong-content", "read(%d, %d) of %s of %d bytes (%s): %s instead "
                            "of %s" % (off, size, path, n, end, short(got, 100),
                                       short(content[off:off + size], 100)))
        if end == "end" and len(got) > max(0, n - off) and stream.size is not None:
            raise Violation("read-past-end", "read(%d, %d) of %s of %d bytes: %d bytes" % (
                off, size, path, n, len(got)))
        ctx.probe("read.compared")
        ctx.state(type(stream).__name__, inside, end, bool(got), off == 0)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("read.compared", 0) >= 2
