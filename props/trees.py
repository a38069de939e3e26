"""F01..F04, F07: trees of fields, parsed lazily."""
import json
import os

from simkit import docs, synth
from simkit.core import Prop, Violation, short
from simkit.docs import damage, load

ENGINE = ["hachoir.field.*", "hachoir.parser.*", "hachoir.stream.*", "hachoir.core.*"]


class DocProp(Prop):
    real = ENGINE
    stubs = ["storage medium (bytes of the document, damaged by the plan)"]
    lists = ("ops", "mut", "ops2", "reset")
    mem = 3 << 30
    memory_ok = True
    generated = 0.25
    synth = 0.2
    structured = 0.2
    kinds = None
    fat = True

    def setup(self):
        import hachoir.parser  # noqa
        import hachoir.metadata  # noqa
        import hachoir.subfile.main  # noqa
        docs.quiet()
        self.docs = docs.Docs()

    def gen_doc(self, rng, damage_kinds=None, cross=0.0):
        """Choose a document, its parser and its damage."""
        if rng.chance(self.synth):
            n = rng.pick([1, 4, 16, 60, 200])
            data = rng.randbytes(n) if rng.chance(0.5) else bytes(
                rng.randrange(6) for _ in range(n))
            return {"layout": synth.gen_layout(rng), "endian": rng.pick("LB"),
                    "data": data.hex(), "seekable": rng.chance(0.2), "mut": []}
        while True:
            name, pid = self.docs.pick(rng, self.generated, self.kinds)
            if self.fat or not pid.startswith("fat"):
                break
        if cross and rng.chance(cross):
            pid = rng.pick(sorted(docs.parser_ids()))
        kind = rng.pick(damage_kinds) if damage_kinds else None
        if not (damage_kinds and set(damage_kinds) == {"none"}) and rng.chance(self.structured):
            ints = docs.int_fields(name, self.docs.ids.get(name, pid))
            if ints:
                return {"file": name, "parser": pid, "mut": docs.gen_int_damage(rng, ints)}
        return {"file": name, "parser": pid,
                "mut": docs.gen_damage(rng, len(load(name)), kind)}

    @staticmethod
    def content(doc):
        if "layout" in doc:
            return bytes.fromhex(doc["data"])
        return damage(load(doc["file"]), doc["mut"])

    @staticmethod
    def cls(doc):
        if "layout" in doc:
            return synth.make_parser(doc["layout"], doc["endian"], doc["seekable"])
        return docs.parser_class(doc["parser"])

    def simplify(self, plan):
        if "layout" in plan:
            for i in range(len(plan["layout"])):
                yield dict(plan, layout=plan["layout"][:i] + plan["layout"][i + 1:])
            yield from (dict(plan, layout=x) for x in flatten(plan["layout"]))
            n = len(plan["data"]) // 4 * 2
            if n:
                yield dict(plan, data=plan["data"][:n])
        if plan.get("limit", 0) > 50:
            yield dict(plan, limit=plan["limit"] // 2)

    def sample(self, plan):
        return short(json.dumps(plan), 700)


def flatten(layout):
    """Replace a nested layout by its content"""
    for i, item in enumerate(layout):
        for j, x in enumerate(item):
            if isinstance(x, list) and x and isinstance(x[0], list) \
                    and isinstance(x[0][0], str):
                yield layout[:i] + x + layout[i + 1:]
                for sub in flatten(x):
                    yield layout[:i] + [item[:j] + [sub] + item[j + 1:]] + layout[i + 1:]
                for k in range(len(x)):
                    yield layout[:i] + [item[:j] + [x[:k] + x[k + 1:]]
                                        + item[j + 1:]] + layout[i + 1:]


def shape(rows):
    """A measure of the state reached: the set of (type, depth) in the tree"""
    return sorted({(r[1], r[0].count("/")) for r in rows if r[0] != "RAISED"})


def build(plan, data=None, stream=None):
    from hachoir.stream import StringInputStream
    if stream is None:
        stream = StringInputStream(DocProp.content(plan) if data is None else data)
    return DocProp.cls(plan)(stream)


class F01(DocProp):
    id = "F01"
    title = "The field tree does not depend on the order in which it is accessed"
    runs = {"quick": 4000, "thorough": 100000}
    rule = ("One run: a document (corpus, generated or random grammar), damaged by the "
            "plan, is parsed twice in one process: once in order, once after a random "
            "schedule of accesses which interleaves the lazy parsers of its field sets; "
            "paths, types, addresses, sizes, values, displays and descriptions of both "
            "trees must be equal, and so must the size of arrays. Non-trivial: at least "
            "three accesses.")
    assumptions = ["field values longer than 8 KB are not compared",
                   "trees are compared up to 300..3000 fields",
                   "descriptions of sets are compared in undamaged documents only",
                   "no FAT file system: following a link replaces its raw fields by design"]
    fat = False
    generated = 0.4

    def gen(self, rng, index, tier):
        plan = self.gen_doc(rng, ["none"] if rng.chance(0.3) else None)
        plan["ops"] = docs.gen_access(rng, rng.pick([3, 8, 20, 60]))
        plan["limit"] = rng.pick([300, 1000, 1000, 3000])
        plan["walk"] = rng.chance(0.3)
        plan["contents"] = rng.chance(0.3)
        plan["reset"] = []
        if rng.chance(0.25):
            # sets which are parsed again, then other accesses
            plan["reset"] = [rng.randrange(1000) for _ in range(rng.pick([1, 1, 3]))]
            plan["ops2"] = docs.gen_access(rng, rng.pick([0, 3, 20]))
        return plan

    def run(self, plan, ctx):
        docs.count_damage(ctx, plan["mut"])
        try:
            first = build(plan)
            want = docs.dump(first, plan["limit"], True)
        except Exception as err:
            first, want = None, ["EXC", type(err).__name__]
        try:
            second = build(plan)
            paths = [row[0] for row in want if row[0] != "RAISED"]
            access = docs.Access([second], ctx, paths=paths)
            for op in plan["ops"]:
                access.do(op)
            if plan["reset"]:
                sets = []
                for a in plan["reset"]:
                    fs = access.pool[a % len(access.pool)]
                    # what is known about its arrays
                    for name in {f.name.split("[")[0] for f in fs._fields
                                 if f.name.endswith("]")}:
                        if a % 2:
                            len(fs.array(name))
                    fs.reset()
                    sets.append(fs)
                    ctx.fault("set_reset")
                # what was read before the reset belongs to the past
                access = docs.Access([second] + sets, ctx, paths=paths)
                for op in plan["ops2"]:
                    access.do(op)
            if plan["walk"]:
                docs.dump(second, plan["limit"])
            got = docs.dump(second, plan["limit"], True)
        except Exception as err:
            second, got = None, ["EXC", type(err).__name__]
        if first is None or second is None:
            if want != got:
                raise Violation("tree-differs", "%s / %s" % (want, got))
            return
        ctx.state(shape(want))
        if plan["mut"]:
            # When a parser fails, its last fields may be deleted: the
            # description of a set which reads them first is another one
            for row in want + got:
                if len(row) > 6 and row[5] is None:
                    row[6] = None
        if not plan["reset"] or "layout" in plan and "seekset" not in json.dumps(
                plan["layout"]):
            docs.compare("tree after %d accesses" % len(plan["ops"]), want, got)
        # (Attributes which a parser sets on its sets are not restored by reset())
        if plan["contents"] and not plan["reset"]:
            self.compare_contents(plan, ctx, first, second)
        # arrays: size and items are those of the tree
        for fs in access.pool[:20]:
            if not fs.done or not fs.current_length:
                continue
            names = {f.name for f in fs._fields}
            for base in sorted({n.split("[")[0] for n in names if n.endswith("]")})[:4]:
                n = 0
                while "%s[%d]" % (base, n) in names:
                    n += 1
                arr = fs.array(base)
                m = len(arr)
                for i in {0, n // 2, n - 1}:
                    if 0 <= i < n and arr[i] is not fs["%s[%d]" % (base, i)]:
                        raise Violation("wrong-array", "array(%r)[%d] of %s is not the "
                                        "field of this name" % (base, i, fs.path))
                if m != n:
                    raise Violation("wrong-array", "len(array(%r)) of %s: %d instead of %d"
                                    % (base, fs.path, m, n))
        # an iterator which was left in the middle resumes where it was
        for it in access.iters[:5]:
            try:
                for i, f in enumerate(it):
                    if i > 200:
                        break
            except Exception as err:
                raise Violation("iterator-raises", "%s" % short(repr(err)))
        access.check_histories()

    def compare_contents(self, plan, ctx, first, second):
        """Contents stored in the documents: the beginning of some of them"""
        from props.contents import find_contents, reach
        try:
            special, plain, _ = find_contents(first, plan["limit"])
        except Exception:
            return

        def content(root, path, links):
            try:
                stream = reach(root, path, links).getSubIStream()
                return stream.read(0, 8 * 3000)[1][:3000]
            except Exception as err:
                return type(err).__name__
        for path, links in special[:5] + plain[:1]:
            want, got = content(first, path, links), content(second, path, links)
            ctx.probe("content.compared")
            if want != got:
                raise Violation("content-differs", "content of %s: %s / %s" % (
                    path, short(want, 120), short(got, 120)))

    def nontrivial(self, plan, summary):
        return summary["ops"] >= 3


# ------------------------------------------------------------------ F02 tiling

def bits_at(data, address, size, little):
    first, last = address // 8, (address + size + 7) // 8
    raw = data[first:last]
    if little:
        return (int.from_bytes(raw, "little") >> (address % 8)) & ((1 << size) - 1)
    v = int.from_bytes(raw, "big")
    return (v >> (last * 8 - address - size)) & ((1 << size) - 1)


def check_tree(root, data, limit, ctx, values=True, strict=True, none_ok=False):
    """Structure of the tree of fields, and values against the bytes."""
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    from hachoir.field import (Bit, Bits, RawBits, RawBytes, GenericInteger,
                               RootSeekableFieldSet, Float32, Float64)
    import struct
    total = len(data) * 8
    n = 0
    todo = [root]
    while todo and n < limit:
        fs = todo.pop()
        absolute = fs.absolute_address
        seekable = isinstance(fs, RootSeekableFieldSet)
        pos = 0
        covered = []
        names = set()
        # The fields are read first: a set which turns out to be too short or
        # too long is repaired when its parser ends
        fs.readFirstFields(limit - n + 1)
        for i in range(fs.current_length):
            f = fs.getField(i, const=True)
            n += 1
            if n >= limit:
                break
            size = f.size
            where = "%s (%s) at %d size %d in %s size %s" % (
                f.path, type(f).__name__, f.address, size, fs.path, fs._size)
            if not isinstance(size, int) or not isinstance(f.address, int):
                raise Violation("not-an-integer", where)
            if f.name in names:
                raise Violation("duplicate-name", where)
            names.add(f.name)
            if f.parent is not fs:
                raise Violation("wrong-parent", where)
            if f.absolute_address != absolute + f.address:
                raise Violation("wrong-address", "%s: absolute %d" % (
                    where, f.absolute_address))
            if not seekable:
                if f.address != pos:
                    raise Violation("gap-or-overlap", "%s: expected at %d" % (where, pos))
                pos += size
            else:
                covered.append((f.address, f.address + size))
            if f.is_field_set and size <= 0:
                raise Violation("empty-set", where)
            a = f.absolute_address
            inside = a >= 0 and a + size <= total
            if not inside and strict and not seekable:
                raise Violation("outside-stream", "%s: stream has %d bits" % (where, total))
            if f.is_field_set:
                todo.append(f)
                if type(f).__name__ not in ("Float32", "Float64") or size > 64:
                    continue
            if not values or size > docs.VALUE_LIMIT or not inside or not size:
                continue
            create = type(f).createValue
            if "createValue" in vars(f) or type(f) is None:
                continue
            owner = create.__qualname__.split(".")[0]
            endian = fs.endian
            if isinstance(f, RawBytes) and owner == "RawBytes" and a % 8 == 0:
                want = data[a // 8:(a + size) // 8]
            elif isinstance(f, RawBits) and endian in (BIG_ENDIAN, LITTLE_ENDIAN) \
                    and owner in ("RawBits", "GenericInteger", "Bit"):
                want = bits_at(data, a, size, endian is LITTLE_ENDIAN)
                if owner == "GenericInteger":
                    if f.signed and want >> (size - 1):
                        want -= 1 << size
                elif owner == "Bit":
                    want = want == 1
            else:
                continue
            got = f.value
            ctx.probe("value.checked")
            if got is None and none_ok:
                ctx.probe("value.lost")
                continue
            if got != want:
                raise Violation("wrong-value", "%s: %s instead of %s" % (
                    where, short(got), short(want)))
        else:
            # all fields were read
            size = fs.size
            if size is not None:
                if not seekable and pos != size:
                    raise Violation("wrong-size", "%s: size %d but fields end at %d"
                                    % (fs.path, size, pos))
                if seekable:
                    covered.sort()
                    end = 0
                    for x, y in covered:
                        if x > end:
                            raise Violation("gap", "%s: nothing at %d..%d" % (fs.path, end, x))
                        end = max(end, y)
                    if end < size:
                        raise Violation("gap", "%s: nothing at %d..%d" % (fs.path, end, size))
            if not fs.done:
                raise Violation("not-done", fs.path)
            seen = [f.name for f in fs]
            if sorted(seen) != sorted(names):
                raise Violation("iteration", "%s: %d fields iterated, %d exist" % (
                    fs.path, len(seen), len(names)))
            if len(fs) != len(names):
                raise Violation("wrong-length", "%s: len %d, %d fields" % (
                    fs.path, len(fs), len(names)))
            for i in range(0, fs.current_length, 1 + fs.current_length // 8):
                f = fs.getField(i)
                got = fs.getFieldByAddress(f.address)
                if f.size and (got is not f if not seekable else got is None or not (
                        got.address <= f.address < got.address + got.size)):
                    raise Violation("wrong-field-at-address", "%s: %s at %d instead of %s" % (
                        fs.path, got and got.name, f.address, f.name))
            ctx.probe("set.complete")
    if root.size is not None and root.size != total and not isinstance(
            root, RootSeekableFieldSet):
        raise Violation("wrong-size", "size of the document: %s instead of %d" % (
            root.size, total))
    ctx.probe("fields", n)


class F02(DocProp):
    id = "F02"
    title = "Fields tile the document and hold the bytes of their address"
    runs = {"quick": 5000, "thorough": 120000}
    rule = ("One run: a document damaged by the plan is parsed after a random schedule of "
            "accesses; then the whole tree (up to 6000 fields) must tile each set without "
            "gap nor overlap, inside the document, with unique names and consistent "
            "addresses, and integers, bits and bytes must be those of their address. "
            "Non-trivial: at least one value checked.")

    def gen(self, rng, index, tier):
        plan = self.gen_doc(rng, cross=0.15)
        plan["ops"] = docs.gen_access(rng, rng.pick([0, 0, 8, 30]))
        plan["limit"] = rng.pick([500, 2000, 6000])
        return plan

    def run(self, plan, ctx):
        docs.count_damage(ctx, plan["mut"])
        data = self.content(plan)
        try:
            root = build(plan, data)
        except Exception:
            ctx.probe("refused")
            return
        access = docs.Access([root], ctx)
        for op in plan["ops"]:
            access.do(op)
        ctx.event("ops", ctx.ops)
        check_tree(root, data, plan["limit"], ctx)
        ctx.event(sorted(ctx.probes.items()))
        ctx.state(type(root).__name__, len(access.pool), bool(plan["mut"]))

    def nontrivial(self, plan, summary):
        return summary["probes"].get("value.checked", 0) > 0


# -------------------------------------------------------- F03 damaged documents

class F03(DocProp):
    id = "F03"
    title = "Damaged documents are parsed in bounded time without exception"
    runs = {"quick": 8000, "thorough": 150000}
    steps = 30_000_000
    memory_kind = "memory-exhausted"
    rule = ("One run: a document damaged by the plan (or given to the parser of another "
            "format) is opened by the guesser and by the parser, walked, its fields shown "
            "and looked up. No exception may escape, except a missing field for a lookup, "
            "and 30 million loop iterations must be enough. Non-trivial: the parser "
            "accepted the document.")
    assumptions = ["at most 6000 fields are walked",
                   "memory is limited to 3 GB: an allocation which fails is a fault"]

    def gen(self, rng, index, tier):
        self.structured = 0.5
        plan = self.gen_doc(rng, ["cut", "flip", "zero", "ff", "insert", "delete", "mix",
                                  "edge", "edge", "flip"], cross=0.3)
        plan["ops"] = docs.gen_access(rng, rng.pick([0, 10, 40]))
        plan["limit"] = rng.pick([1000, 6000])
        plan["guess"] = "layout" not in plan and rng.chance(0.3)
        plan["filename"] = rng.chance(0.5)
        return plan

    def run(self, plan, ctx):
        from hachoir.field import FieldError, MissingField
        from hachoir.stream import StringInputStream, InputStreamError
        docs.count_damage(ctx, plan["mut"])
        data = self.content(plan)

        def on_error(code, f, err):
            if isinstance(err, MissingField) and code in (9, 10, 11, 12):
                return
            raise Violation("exception-escapes", "access %d of %s: %r" % (
                code, f.path, err)) from err

        if plan["guess"]:
            from hachoir.parser.guess import guessParser
            tags = [("filename", plan["file"].replace(":", "."))] if plan["filename"] else []
            try:
                root = guessParser(StringInputStream(data, tags=tags))
            except Exception as err:
                raise Violation("guess-raises", repr(err)) from err
            if root is None:
                ctx.probe("guess.none")
                return
            ctx.probe("guess.found")
        else:
            try:
                root = build(plan, data)
            except (FieldError, InputStreamError, AssertionError) as err:
                ctx.probe("refused")
                return
            except Exception as err:
                ctx.probe("refused." + type(err).__name__)
                return
        access = docs.Access([root], ctx, on_error)
        for op in plan["ops"]:
            try:
                access.do(op)
            except Violation as v:
                raise
        n = 0
        stack = [iter([root])]
        path = "/"
        while stack and n < plan["limit"]:
            try:
                f = next(stack[-1])
            except StopIteration:
                stack.pop()
                continue
            except Exception as err:
                raise Violation("exception-escapes", "iteration after %s: %r" % (
                    path, err)) from err
            n += 1
            path = f.path
            try:
                size = f.size
                f.description
                if f.is_field_set:
                    stack.append(iter(f))
                elif size <= docs.VALUE_LIMIT * 8:
                    f.value, f.display, f.raw_display, str(f), f.hasValue()
            except Exception as err:
                raise Violation("exception-escapes", "%s (%s): %r" % (
                    path, type(f).__name__, err)) from err
        try:
            root.mime_type, root.filename_suffix, root.content_size, root.description
        except Exception as err:
            raise Violation("exception-escapes", "root property: %r" % err) from err
        ctx.event("fields", n)
        ctx.probe("walked")
        ctx.state(type(root).__name__, n, len(data) % 64)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("walked", 0) > 0
