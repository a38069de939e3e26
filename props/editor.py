"""E01: editing histories of a document against a model of its fields."""
import io

from simkit import docs
from simkit.core import Violation, make_rng, short
from props.output import Model, bits_of
from props.streams import Faults, RawSource
from props.trees import DocProp

MAX_FIELDS = 1500


class Refused(Exception):
    """Out of the scope of the editor"""


class Leaf:
    is_set = False

    def __init__(self, name, cls, bits=None, raw=None, size=None, field=None, little=False):
        self.name = name
        self.cls = cls          # name of the class, None for a new field
        self.bits = bits        # list of bits, or
        self.raw = raw          # bytes
        self.size = size
        self.field = field
        self.little = little
        self.new = field is None

    def set_bits(self, value, size):
        self.bits, self.raw, self.size = bits_of(value, size, self.little), None, size

    def set_raw(self, raw):
        self.bits, self.raw, self.size = None, raw, len(raw) * 8

    def write(self, m):
        if self.raw is not None and not m.pend:
            m.data += self.raw
            return
        if self.raw is not None:
            m.unaligned = True
        if m.little != self.little:
            if m.pend:
                raise Refused("two endians in a byte")
            m.little = self.little
        bits = self.bits
        if bits is None:
            bits = []
            for x in self.raw:
                bits += bits_of(x, 8, self.little)
        m.write(bits)


class Set:
    is_set = True
    cls = "set"

    def __init__(self, name, children):
        self.name = name
        self.children = children
        self.new = False

    @property
    def size(self):
        return sum(x.size for x in self.children)

    def write(self, m):
        for x in self.children:
            x.write(m)


def build_model(fs, data, budget):
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    if fs.endian not in (BIG_ENDIAN, LITTLE_ENDIAN):
        raise Refused("endian")
    children = []
    little = fs.endian is LITTLE_ENDIAN
    pos = 0
    for f in fs:
        budget[0] -= 1
        if budget[0] < 0:
            raise Refused("too many fields")
        if f.address != pos or f.absolute_address + f.size > len(data) * 8:
            raise Refused("not sequential")
        pos += f.size
        if f.is_field_set and type(f).__name__ not in ("Float32", "Float64"):
            children.append(build_model(f, data, budget))
            continue
        a, size = f.absolute_address, f.size
        leaf = Leaf(f.name, type(f).__name__, field=f, little=little)
        if a % 8 == 0 and size % 8 == 0:
            leaf.set_raw(data[a // 8:(a + size) // 8])
        else:
            first, last = a // 8, (a + size + 7) // 8
            bits = []
            for x in data[first:last]:
                bits += bits_of(x, 8, little)
            leaf.bits = bits[a % 8:a % 8 + size]
            leaf.size = size
        children.append(leaf)
    if fs.size != pos:
        raise Refused("not sequential")
    return Set(fs.name, children)


class Sink(io.RawIOBase):
    """Output which fails after some bytes"""

    def __init__(self, ctx, room):
        self.ctx = ctx
        self.room = room
        self.data = bytearray()

    def writable(self):
        return True

    def write(self, buf):
        buf = bytes(buf)
        if self.room is not None and len(self.data) + len(buf) > self.room:
            self.ctx.fault("enospc")
            raise OSError(28, "No space left on device (simulated)")
        self.data += buf
        return len(buf)


class E01(DocProp):
    id = "E01"
    title = "An edited document is the original one with exactly the edits"
    method = ("seeded editing histories with failing outputs and inputs, against a model of the "
              "document as a list of fields")
    runs = {"quick": 6000, "thorough": 150000}
    synth = 0.4
    generated = 0.6
    kinds = ["zip", "tar", "gzip", "ar", "wav", "png", "bmp", "id3"]
    lists = ("ops",)
    rule = ("One run: a document (generated, corpus or random grammar) is edited by a sequence "
            "of changes of values, deletions and insertions at all levels, mixed with sizes, "
            "addresses and names asked, and with writes which fail (full disk, read error of "
            "the original). Names, order, sizes, addresses and each output are compared with "
            "a model. Non-trivial: an output of an edited document was compared.")
    assumptions = ["documents of at most 1500 fields, read sequentially",
                   "writing byte fields at an address which is not a multiple of 8 may be "
                   "refused (NotImplementedError, documented limit)"]
    real = DocProp.real + ["hachoir.editor", "hachoir.stream.output"]
    stubs = ["output medium", "original medium"]

    def gen(self, rng, index, tier):
        while True:
            plan = self.gen_doc(rng, ["none"])
            if "layout" in plan or len(docs.load(plan["file"])) < 40000:
                break
        plan["mut"] = []
        plan["ops"] = [[rng.randrange(20), rng.randrange(1 << 30)]
                       for _ in range(rng.pick([2, 5, 10, 25, 50]))]
        plan["ops"].append([17, 0])
        return plan

    def run(self, plan, ctx):
        from hachoir.editor import createEditor
        from hachoir.stream import InputIOStream
        data = self.content(plan)
        self.faults = Faults(ctx, [])
        try:
            parser = self.cls(plan)(InputIOStream(RawSource(data, self.faults)))
            model = build_model(parser, data, [MAX_FIELDS])
        except Refused:
            ctx.probe("out of scope")
            return
        except Exception:
            ctx.probe("refused")
            return
        if model.size != len(data) * 8:
            return
        editor = createEditor(parser)
        self.parser = parser
        self.fixed = self.autofixed(model)
        self.model, self.editor, self.ctx = model, editor, ctx
        self.edits = 0
        self.count = 0
        for code, seed in plan["ops"]:
            rng = make_rng(seed)
            try:
                self.step(code, rng)
            except Refused:
                ctx.probe("out of scope")
                return

    # ------------------------------------------------------------ choices
    def autofixed(self, s):
        """Is the document damaged? Parsing again a set which was truncated by its
        parent gives other fields."""
        return any(self.autofixed(x) if x.is_set else x.name.startswith(("raw[", "unparsed["))
                   for x in s.children)

    def sets(self):
        """[(path, set of the model)] of all sets of the document"""
        out = [("", self.model)]
        for path, s in out:
            for x in s.children:
                if x.is_set and not x.new:
                    out.append((path + "/" + x.name, x))
        return out

    def ed(self, path):
        e = self.editor
        for name in path.split("/")[1:]:
            e = e[name]
        return e

    def step(self, code, rng):
        from hachoir.field import MissingField
        sets = self.sets()
        path, s = sets[0] if rng.chance(0.3) else rng.pick(sets)
        old = [x for x in s.children if not x.new]
        ctx = self.ctx
        try:
            if code < 7:
                if old:
                    leaves = [x for x in old if not x.is_set]
                    x = rng.pick(leaves or old)
                    self.set_value(path, x, rng)
            elif code < 9:
                if old:
                    x = rng.pick(old)
                    ctx.op("del", path, x.name)
                    if rng.chance(0.5) and path:
                        del self.editor[path[1:] + "/" + x.name]
                    else:
                        del self.ed(path)[x.name]
                    s.children.remove(x)
                    self.edits += 1
                    self.missing(self.ed(path), x.name)
                    if rng.chance(0.3):
                        try:
                            del self.ed(path)[x.name]
                        except MissingField:
                            pass
                        else:
                            raise Violation("deleted-twice", x.name)
            elif code < 12:
                self.insert(path, s, rng)
            elif code == 12:
                self.observe(path, s)
            elif code == 13:
                self.missing(self.ed(path), "nothing%d" % rng.randrange(5))
                try:
                    del self.ed(path)["nothing"]
                except MissingField:
                    pass
                else:
                    raise Violation("missing-field", "a field which does not exist is deleted")
            elif code == 14:
                ctx.op("reset", path)
                if rng.chance(0.3) and not self.fixed:
                    self.ed(path).reset()
                    # Errors while the original is parsed again are not the subject
                    stack = [self.parser]
                    while stack:
                        stack += [f for f in stack.pop() if f.is_field_set]
            elif code == 15:
                ctx.op("write with full disk")
                room = rng.randrange(self.model.size // 8 + 1)
                self.write(Sink(ctx, room), True)
            elif code == 16:
                ctx.op("write with read errors")
                self.faults.script = {self.faults.calls + rng.randrange(8): "eio"}
                fired = self.faults.fired
                self.write(Sink(ctx, None), True)
                ctx.event(self.faults.fired - fired)
                self.faults.script = {}
            else:
                ctx.op("write", path if code == 19 else "")
                if code == 19:
                    self.write(Sink(ctx, None), False, path, s)
                else:
                    self.write(Sink(ctx, None), False)
        except (Violation, Refused):
            raise
        except OSError as err:
            raise Violation("error", "%s: %r" % (path, err)) from err
        except Exception as err:
            raise Violation("exception", "operation %d on %r: %r" % (code, path, err)) from err

    def missing(self, e, name):
        from hachoir.field import MissingField
        if name in e:
            raise Violation("missing-field", "%s is there" % name)
        try:
            e[name]
        except MissingField:
            return
        raise Violation("missing-field", "%s found" % name)

    # ------------------------------------------------------------- values
    def set_value(self, path, x, rng):
        from hachoir.field import isInteger, isString
        if x.is_set:
            return
        e = self.ed(path)[x.name]
        f = x.field
        ok, bad = None, None
        if isInteger(f):
            n = f.size
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if f.signed else (0, (1 << n) - 1)
            ok = rng.pick([lo, hi, 0, rng.randrange(lo, hi + 1)])
            bad = rng.pick([lo - 1, hi + 1])
            raw = (ok & ((1 << n) - 1)).to_bytes(n // 8, "little" if x.little else "big")
            new = lambda: x.set_raw(raw)
            if n not in (8, 16, 24, 32, 64):
                return
        elif isString(f):
            if f.charset in f.UTF_CHARSET and f.charset not in ("UTF-8",):
                return
            value = rng.pick([b"abc", b"x" * rng.randrange(1, 200), b"a"])
            if f.format == "C":
                raw = value + b"\0"
            elif f.format == "UnixLine":
                raw = value + b"\n"
            elif f.format == "fixed":
                raw = value
            else:
                n = {"Pascal8": 1, "Pascal16": 2, "Pascal32": 4}[f.format]
                raw = len(value).to_bytes(n, "little" if x.little else "big") + value
                if n == 1:
                    bad = b"z" * 256
            ok = value
            new = lambda: x.set_raw(raw)
        elif x.cls == "Character":
            c = rng.randrange(256)
            ok = chr(c)
            bad = rng.pick(["", "ab", 5])
            new = lambda: (x.set_raw(bytes([c])) if f.absolute_address % 8 == 0
                           else x.set_bits(c, 8))
        elif x.cls in ("RawBits", "Bits", "Bit", "PaddingBits"):
            n = f.size
            ok = rng.pick([0, (1 << n) - 1, rng.getrandbits(n)])
            bad = rng.pick([-1, 1 << n])
            new = lambda: x.set_bits(ok, n)
        elif x.cls in ("RawBytes", "Bytes", "PaddingBytes"):
            ok = rng.randbytes(rng.pick([1, 2, f.size // 8 or 1, 700]))
            bad = b""
            new = lambda: x.set_raw(ok)
        elif x.cls in ("Float32", "Float64"):
            import struct
            ok = rng.pick([0.0, 1.5, -2.25, 1e10])
            raw = struct.pack(("<" if x.little else ">")
                              + ("f" if x.cls == "Float32" else "d"), ok)
            new = lambda: x.set_raw(raw)
        elif x.cls == "TimestampMac32":
            import datetime
            secs = rng.pick([0, 2 ** 32 - 1, rng.randrange(1 << 32)])
            base = datetime.datetime(1904, 1, 1)
            ok = base + datetime.timedelta(seconds=secs)
            bad = rng.pick([base - datetime.timedelta(seconds=1),
                            base + datetime.timedelta(seconds=2 ** 32)])
            new = lambda: x.set_raw(secs.to_bytes(4, "little" if x.little else "big"))
        else:
            return
        if bad is not None and rng.chance(0.25):
            self.ctx.op("bad value", path, x.name, x.cls)
            try:
                e.value = bad
            except (ValueError, TypeError, AssertionError):
                pass
            else:
                raise Violation("bad-value-accepted", "%s/%s (%s, %d bits) = %s" % (
                    path, x.name, x.cls, x.size, short(bad, 60)))
            return
        self.ctx.op("set", path, x.name, x.cls)
        try:
            e.value = ok
        except Exception as err:
            raise Violation("value-refused", "%s/%s (%s, %d bits) = %s: %r" % (
                path, x.name, x.cls, x.size, short(ok, 60), err)) from err
        new()
        self.edits += 1
        got = self.ed(path)[x.name].value
        if got != ok:
            raise Violation("wrong-value", "%s/%s: %s instead of %s" % (
                path, x.name, short(got, 60), short(ok, 60)))

    # ---------------------------------------------------------- insertions
    def new_fields(self, parent, rng, little, depth=0):
        from hachoir.editor import (EditableBits, EditableBytes, EditableInteger,
                                    EditableString, NewFieldSet)
        fields, leaves = [], []
        for _ in range(rng.pick([1, 1, 2, 3])):
            self.count += 1
            name = rng.pick(["new%d", "new%d", "item[]"])
            if "%" in name:
                name = name % self.count
            if name.endswith("]") and any(x.name.startswith("item[") for x in leaves):
                name = "new%d" % self.count
            k = rng.randrange(6 if depth < 2 else 4)
            if k < 2:
                n = rng.pick([8, 16, 32])
                signed = rng.chance(0.3)
                v = rng.randrange(1 << n - 1) - (1 << n - 2 if signed else 0)
                fields.append(EditableInteger(parent, name, signed, n, v))
                leaf = Leaf(name, None, little=little)
                leaf.set_raw((v & (1 << n) - 1).to_bytes(n // 8, "little" if little else "big"))
            elif k == 2:
                v = rng.randbytes(rng.pick([1, 5, 40]))
                fields.append(EditableBytes(parent, name, v))
                leaf = Leaf(name, None, little=little)
                leaf.set_raw(v)
            elif k == 3:
                n = rng.pick([8, 4, 16])
                v = rng.getrandbits(n)
                fields.append(EditableBits(parent, name, n, v))
                leaf = Leaf(name, None, little=little)
                leaf.set_bits(v, n)
            elif k == 4:
                fmt = rng.pick(["C", "Pascal8", "Pascal16", "fixed"])
                v = b"hello"[:rng.randrange(1, 6)]
                fields.append(EditableString(parent, name, fmt, v))
                order = "little" if little else "big"
                leaf = Leaf(name, None, little=little)
                leaf.set_raw({"C": v + b"\0", "fixed": v,
                              "Pascal8": bytes([len(v)]) + v,
                              "Pascal16": len(v).to_bytes(2, order) + v}[fmt])
            else:
                sub = NewFieldSet(parent, name)
                leaf = Set(name, [])
                leaf.new = True
                for _ in range(rng.randrange(3)):
                    fs, ls = self.new_fields(sub, rng, little, 2)
                    sub.insert(*fs)
                    leaf.children += ls
                if len({x.name for x in leaf.children}) != len(leaf.children):
                    raise Refused("names")
                if len(sub) != len(leaf.children):
                    raise Violation("wrong-length", "new set: %d" % len(sub))
                fields.append(sub)
            leaves.append(leaf)
        return fields, leaves

    def insert(self, path, s, rng):
        from hachoir.core.dict import UniqKeyError
        from hachoir.core.endian import LITTLE_ENDIAN
        e = self.ed(path)
        little = e.endian is LITTLE_ENDIAN
        if rng.chance(0.1) and s.children:
            # a name which is used
            from hachoir.editor import EditableBytes
            used = rng.pick(s.children).name
            if used.endswith("[]"):
                return
            self.ctx.op("insert used name", path, used)
            try:
                e.insert(EditableBytes(e, used, b"x"))
            except UniqKeyError:
                return
            raise Violation("duplicate-name", "%s inserted twice in %s" % (used, path))
        fields, leaves = self.new_fields(self.ed(path), rng, little)
        anchor = rng.pick(s.children) if s.children else None
        how = rng.pick(["before", "after", "end"]) if anchor else "end"
        if how == "end":
            self.ctx.op("insert", path, [x.name for x in leaves])
            e.insert(*fields)
        elif how == "before":
            self.ctx.op("insertBefore", path, anchor.name, [x.name for x in leaves])
            e.insertBefore(anchor.name, *fields)
        else:
            self.ctx.op("insertAfter", path, anchor.name, [x.name for x in leaves])
            e.insertAfter(anchor.name, *fields)
        for f, x in zip(fields, leaves):
            x.name = f.name
        self.edits += 1
        # Where are they?
        names = [f.name for f in e]
        known = {x.name: x for x in s.children}
        added = {x.name: x for x in leaves}
        if sorted(names) != sorted([*known, *added]):
            raise Violation("lost-field", "after an insertion %s in %s: %s instead of %s" % (
                how, path, short(names, 400), short([*known, *added], 400)))
        if [n for n in names if n in known] != [x.name for x in s.children]:
            raise Violation("wrong-order", "an insertion %s moved fields of %s: %s" % (
                how, path, short(names, 400)))
        i = names.index(leaves[0].name)
        j = i + len(leaves)
        if names[i:j] != [x.name for x in leaves]:
            raise Violation("wrong-order", "inserted fields %s are in the order %s" % (
                [x.name for x in leaves], short(names, 400)))
        if how == "end":
            between = names[j:]
        elif how == "before":
            k = names.index(anchor.name)
            between = names[j:k] if k >= j else None
        else:
            k = names.index(anchor.name)
            between = names[k + 1:i] if k < i else None
        if between is None or any(n in known and not known[n].new for n in between):
            raise Violation("wrong-place", "%s inserted %s %s: %s" % (
                [x.name for x in leaves], how, anchor and anchor.name, short(names, 400)))
        known.update(added)
        s.children = [known[n] for n in names]

    # --------------------------------------------------------- observation
    def observe(self, path, s):
        e = self.ed(path)
        self.ctx.op("observe", path)
        names = [f.name for f in e]
        want = [x.name for x in s.children]
        if names != want:
            raise Violation("wrong-fields", "%s: %s instead of %s" % (
                path, short(names, 300), short(want, 300)))
        if len(e) != len(want):
            raise Violation("wrong-length", "len(%s): %d instead of %d" % (
                path, len(e), len(want)))
        if e.size != s.size:
            raise Violation("wrong-size", "size of %s: %s instead of %s" % (
                path, e.size, s.size))
        # address of the set
        address = 0
        node = self.model
        for name in path.split("/")[1:]:
            for x in node.children:
                if x.name == name:
                    node = x
                    break
                address += x.size
        if e.absolute_address != address:
            raise Violation("wrong-address", "address of %s: %s instead of %s" % (
                path, e.absolute_address, address))
        pos = 0
        step = max(1, len(s.children) // 7)
        for i, x in enumerate(s.children):
            if not x.new:
                if x.name not in e:
                    raise Violation("missing-field", x.name)
                if i % step == 0:
                    f = e[x.name]
                    if (f.size, f.address) != (x.size, pos):
                        raise Violation("wrong-address", "%s/%s: size %s at %s instead of %s "
                                        "at %s" % (path, x.name, f.size, f.address,
                                                   x.size, pos))
            pos += x.size
        base = {x.name.split("[")[0] for x in s.children if not x.new and "[" in x.name}
        have = {x.name for x in s.children if not x.new}
        for b in sorted(base)[:2]:
            n = 0
            while "%s[%d]" % (b, n) in have:
                n += 1
            got = [f.name for f in e.array(b)]
            if got != ["%s[%d]" % (b, i) for i in range(n)]:
                raise Violation("wrong-array", "%s: %s" % (b, short(got, 200)))

    def write(self, sink, may_fail, path="", s=None):
        from hachoir.stream import OutputStream, InputStreamError
        m = Model()
        m.unaligned = False
        (s or self.model).write(m)
        want = m.all()
        out = OutputStream(sink)
        try:
            (self.ed(path) if path else self.editor).writeInto(out)
        except (OSError, InputStreamError) as err:
            if not may_fail:
                raise Violation("error", "write: %r" % err) from err
            if not want.startswith(bytes(sink.data)):
                raise Violation("not-a-prefix", "after %r: %s instead of the beginning of %s"
                                % (err, short(bytes(sink.data[-40:])), short(want, 80)))
            self.ctx.probe("write.failed")
            return
        except (NotImplementedError, AssertionError) as err:
            if not m.unaligned:
                raise Violation("exception", "write: %r" % err) from err
            self.ctx.probe("write.unaligned")
            return
        # (flush of the last bits)
        data = bytes(sink.data)
        if m.pend:
            want = bytes(m.data)
        if data != want:
            i = next((i for i in range(min(len(data), len(want)))
                      if data[i] != want[i]), min(len(data), len(want)))
            raise Violation("wrong-output", "%s after %d edits: %d bytes instead of %d, first "
                            "difference at %d: %s instead of %s" % (
                                path or "document", self.edits, len(data), len(want), i,
                                short(data[i:i + 20]), short(want[i:i + 20])))
        self.ctx.probe("write.compared")
        if self.edits:
            self.ctx.probe("write.edited")
        self.ctx.state(self.edits, len(want) % 97, path)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("write.edited", 0) > 0
