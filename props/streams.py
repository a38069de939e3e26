"""S01, S02, S03: input streams, their stacks and their file-like views."""
import gc
import io

from simkit.core import Prop, Violation, short


# ------------------------------------------------------------------ sources

class SimError(OSError):
    """An injected I/O error."""


class Faults:
    """Decides, for each raw call on a source, whether it fails."""

    def __init__(self, ctx, script):
        # script: {raw call number: kind}
        self.ctx = ctx
        self.script = {n: kind for n, kind in script}
        self.calls = 0
        self.enabled = True
        self.fired = 0

    def next(self):
        n = self.calls
        self.calls += 1
        if not self.enabled:
            return None
        kind = self.script.get(n)
        if kind:
            self.fired += 1
            self.ctx.fault(kind)
        return kind


def boom(kind):
    if kind == "eintr":
        raise InterruptedError(4, "Interrupted system call (simulated)")
    if kind == "timeout":
        raise TimeoutError(110, "Connection timed out (simulated)")
    raise SimError(5, "Input/output error (simulated)")


class PipeSource:
    """Not seekable source. chunks: how many bytes the n-th read returns at
    most (cyclic): a read may return less than asked before the end."""

    def __init__(self, data, chunks, faults):
        self.data = data
        self.pos = 0
        self.chunks = chunks
        self.n = 0
        self.faults = faults
        self.closed = False

    def read(self, size=-1):
        kind = self.faults.next()
        if kind in ("eio", "eintr", "timeout"):
            boom(kind)
        left = len(self.data) - self.pos
        if size is None or size < 0:
            size = left
        limit = self.chunks[self.n % len(self.chunks)] if self.chunks else 0
        self.n += 1
        if limit and left > 0:
            if limit < min(size, left):
                self.faults.ctx.probe("pipe.short_read")
            size = min(size, limit)
        d = self.data[self.pos:self.pos + size]
        self.pos += len(d)
        return d

    def close(self):
        self.closed = True


class EspipeSource(PipeSource):
    """Has a seek method, which fails as on a pipe (like sys.stdin.buffer)."""

    def seek(self, *args):
        raise OSError(29, "Illegal seek")

    def tell(self):
        raise OSError(29, "Illegal seek")


class RawSource(io.RawIOBase):
    """Seekable raw file."""

    def __init__(self, data, faults):
        self.data = data
        self.pos = 0
        self.faults = faults
        self.limit = None

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        kind = self.faults.next()
        if kind == "eio":
            boom(kind)
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        if pos < 0:
            raise OSError(22, "Invalid argument")
        self.pos = pos
        return pos

    def readinto(self, buf):
        kind = self.faults.next()
        if kind in ("eio", "eintr", "timeout"):
            boom(kind)
        n = len(buf)
        if kind == "short" and n > 1:
            n = 1 + (n * 7 // 16)
        d = self.data[self.pos:self.pos + n]
        buf[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def shrink(self, size):
        self.data = self.data[:size]


class NoEintrRaw(RawSource):
    pass


# -------------------------------------------------------------------- nodes

class Model:
    """nbits bits of a bytes object, from bit offset off."""

    def __init__(self, data, off, nbits):
        self.data = data
        self.off = off
        self.nbits = nbits

    def bits(self, address, size):
        """Big endian integer made of size bits at address."""
        a = self.off + address
        first, last = a // 8, (a + size + 7) // 8
        v = int.from_bytes(self.data[first:last], "big")
        return (v >> (last * 8 - a - size)) & ((1 << size) - 1)

    def little(self, address, size):
        a = self.off + address
        first, last = a // 8, (a + size + 7) // 8
        v = int.from_bytes(self.data[first:last], "little")
        return (v >> (a % 8)) & ((1 << size) - 1)

    def middle(self, address, size):
        """16 bits words, little endian bytes in a word; words are aligned on
        the start of the stream, which must be aligned on a byte."""
        w0 = address // 16 * 16
        w1 = (address + size + 15) // 16 * 16
        raw = self.bytes(w0, (w1 - w0) // 8)
        swapped = b"".join(bytes((raw[i + 1], raw[i])) for i in range(0, len(raw), 2))
        v = int.from_bytes(swapped, "big")
        return (v >> (w1 - address - size)) & ((1 << size) - 1)

    def bytes(self, address, n):
        a = (self.off + address) // 8
        return self.data[a:a + n]

    @property
    def aligned(self):
        return self.off % 8 == 0

    def all(self):
        return self.bytes(0, self.nbits // 8)


class Node:
    def __init__(self, stream, model, kind, root):
        self.stream = stream
        self.model = model
        self.kind = kind
        self.root = root        # index of the source node
        self.small = False      # block cache may discard blocks


def make_frag_classes():
    from hachoir.core.endian import BIG_ENDIAN
    from hachoir.field import Bytes, Fragment
    from hachoir.parser import Parser

    class Frag(Fragment):
        def __init__(self, parent, name, nbytes, order, pos):
            Fragment.__init__(self, parent, name, None, nbytes * 8)
            first = None if pos == 0 else parent["frag[%u]" % order[0]]
            if pos + 1 < len(order):
                def next():
                    return parent["frag[%u]" % order[pos + 1]]
            else:
                next = None
            self.setLinks(first, next)

    class FragParser(Parser):
        PARSER_TAGS = {"id": "simfrag", "min_size": 8, "description": "sim"}
        endian = BIG_ENDIAN
        layout = ()     # (is fragment, nbytes)
        order = ()      # fragment numbers in content order

        def validate(self):
            return True

        def createFields(self):
            n = 0
            for is_frag, nbytes in self.layout:
                if is_frag:
                    # the first of the content must already exist
                    yield Frag(self, "frag[%u]" % n, nbytes, self.order,
                               self.order.index(n))
                    n += 1
                else:
                    yield Bytes(self, "pad[]", nbytes)
    return FragParser


# --------------------------------------------------------------- generation

LARGE = 1000000     # block cache without limit


def gen_data(rng, n):
    alpha = rng.pick([2, 3, 16, 256])
    if alpha == 256:
        return rng.randbytes(n)
    return bytes(rng.randrange(alpha) for _ in range(n))


def gen_plan(rng, index, faulty, views):
    bs = rng.pick([3, 4, 5, 6, 8, 12])
    nb_min = rng.pick([1, 2, 3, 4, LARGE, LARGE, LARGE])
    block = 1 << bs
    size_kind = rng.weighted([(3, "tiny"), (4, "mid"), (2, "exact"), (2, "big")])
    if size_kind == "tiny":
        n = rng.randrange(1, 12)
    elif size_kind == "mid":
        n = rng.randrange(1, 6 * block + 2)
    elif size_kind == "exact":
        n = block * rng.randrange(1, 5)
    else:
        n = rng.randrange(4000, 13000)
    n = min(n, 20000)
    data = gen_data(rng, n)
    nodes = []
    kinds = ["string", "bytesio", "buffered", "raw", "pipe", "pipe", "pipe",
             "espipe", "pipesize"]
    nodes.append({"t": rng.pick(kinds), "buf": rng.pick([1, 2, 7, 16, 64, 8192])})
    if nodes[0]["t"] in ("pipe", "espipe", "pipesize"):
        mode = rng.randrange(4)
        if mode == 0:
            chunks = []
        elif mode == 1:
            chunks = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))]
        elif mode == 2:
            chunks = [rng.randrange(1, 2 * block) for _ in range(rng.randrange(1, 9))]
        else:
            chunks = [block, max(1, block - 1), rng.randrange(1, block + 1)]
        nodes[0]["chunks"] = chunks
    bits = [n * 8]
    offs = [0]      # alignment of the streams
    for _ in range(rng.weighted([(2, 0), (3, 1), (3, 2), (1, 3)])):
        of = rng.randrange(len(nodes))
        t = rng.weighted([(5, "sub"), (2, "concat"), (3, "frag")])
        if t == "sub":
            total = bits[of]
            if total < 9:
                continue
            if rng.chance(0.7):
                off = 8 * rng.randrange(0, total // 8)
            else:
                off = rng.randrange(0, total - 1)
            left = total - off
            if rng.chance(0.2):
                size = None
                nb = left
            else:
                size = rng.randrange(1, left + 1)
                if rng.chance(0.8):
                    size = (size + 7) // 8 * 8
                size = min(size, left)
                nb = size
            nodes.append({"t": "sub", "of": of, "off": off, "size": size})
            bits.append(nb)
            offs.append((offs[of] + off) % 8)
        elif t == "concat":
            if offs[of] or bits[of] % 8:
                continue    # only bytes can be concatenated
            head = gen_data(rng, rng.randrange(1, 40))
            offs.append(0)
            nodes.append({"t": "concat", "head": head.hex(), "of": of})
            bits.append(bits[of] + 8 * len(head))
        else:
            if bits[of] % 8 or bits[of] < 8 or nodes[of]["t"] not in (
                    "string", "bytesio", "buffered", "raw", "pipe", "espipe", "pipesize"):
                continue
            left = bits[of] // 8
            layout = []
            while left and len(layout) < 8:
                k = min(left, rng.randrange(1, max(2, n // 3 + 1)))
                layout.append([int(rng.chance(0.6)), k])
                left -= k
            if left:
                layout.append([int(rng.chance(0.5)), left])
            nf = sum(x[0] for x in layout)
            if not nf:
                continue
            order = list(range(nf))
            if rng.chance(0.4):
                rest = order[1:]
                rng.shuffle(rest)
                order = order[:1] + rest
            nodes.append({"t": "frag", "of": of, "layout": layout, "order": order})
            frag = [k for f, k in layout if f]
            bits.append(8 * sum(frag))
            offs.append(0)
    ops = []
    nviews = 0
    for _ in range(rng.weighted([(3, rng.randrange(1, 6)), (3, rng.randrange(3, 25)),
                                 (1, rng.randrange(20, 60))])):
        i = rng.randrange(len(nodes))
        total = bits[i]
        if views and (not nviews or rng.chance(0.8)):
            if not nviews or rng.chance(0.12):
                ops.append(["open", i])
                nviews += 1
                continue
            v = rng.randrange(nviews)
            k = rng.randrange(10)
            if k < 4:
                ops.append(["fread", v, rng.pick([0, 1, 2, rng.randrange(1, 64),
                                                  rng.randrange(1, n + 20)])])
            elif k == 4:
                ops.append(["freadall", v])
            elif k == 5:
                ops.append(["ftell", v])
            elif k == 6:
                ops.append(["fseek", v, rng.randrange(0, n + 5), 0])
            elif k == 7:
                ops.append(["fseek", v, rng.randrange(-n, n), 1])
            else:
                ops.append(["fseek", v, -rng.randrange(0, n + 3), 2])
            continue
        k = rng.randrange(20)
        addr = gen_addr(rng, total, block)
        if k < 6:
            ops.append(["read", i, addr, gen_size(rng, total, addr, block)])
        elif k < 9:
            ops.append(["bits", i, addr, rng.pick([1, 3, 7, 8, 9, 16, 24, 31, 32, 64,
                                                   rng.randrange(1, 200)]),
                        rng.pick("BLM")])
        elif k < 11:
            ops.append(["int", i, addr // 8 * 8, rng.pick([8, 16, 24, 32, 64]),
                        rng.pick("BL"), rng.chance(0.5)])
        elif k < 13:
            ops.append(["bytes", i, addr // 8 * 8, rng.pick([1, 2, rng.randrange(1, n + 2)])])
        elif k < 16:
            start = addr // 8 * 8
            m = rng.randrange(1, 5)
            if rng.chance(0.6) and n > m:
                p = rng.randrange(0, n - m)
                needle = data[p:p + m]
            else:
                needle = gen_data(rng, m)
            if n > 4200 and rng.chance(0.5):
                # bytes which straddle two blocks of the search
                i = 0
                start = 8 * rng.randrange(0, n - 4100)
                m = rng.pick([2, 3, 5, 12, 24])
                p = start // 8 + 4096 * rng.randrange(1, 4) - rng.randrange(0, m + 1)
                needle = data[p:p + m] or b"x"
            end = None if rng.chance(0.5) else start + 8 * rng.randrange(0, n + 10)
            ops.append(["search", i, needle.hex(), start, end])
        elif k < 18:
            ops.append(["ge", i, rng.pick([1, total, total + 1, max(1, total - 1),
                                           rng.randrange(1, total + 200)])])
        elif k == 18:
            ops.append(["size", i])
        else:
            ops.append(["gc", i])
    plan = {"data": data.hex(), "bs": bs, "nb_min": nb_min, "nodes": nodes,
            "ops": ops, "faults": []}
    if faulty:
        kinds = ["eio", "eio", "short", "eintr", "timeout"]
        nf = rng.weighted([(4, 1), (3, 2), (2, 4), (1, 8)])
        span = rng.pick([4, 10, 30, 100])
        plan["faults"] = sorted([rng.randrange(span), rng.pick(kinds)]
                                for _ in range(nf))
        # the device may also lose its end for a while
        if rng.chance(0.15):
            plan["shrink"] = [rng.randrange(0, 20), rng.randrange(0, n)]
    return plan


def gen_addr(rng, total, block):
    k = rng.randrange(6)
    if k == 0:
        return 0
    if k == 1:
        return max(0, total - rng.randrange(1, 40))
    if k == 2:
        b = 8 * block * rng.randrange(0, total // (8 * block) + 1)
        return max(0, b + rng.randrange(-17, 18))
    if k == 3:
        return total + rng.randrange(0, 70)
    a = rng.randrange(0, total)
    return a // 8 * 8 if rng.chance(0.6) else a


def gen_size(rng, total, addr, block):
    k = rng.randrange(6)
    if k == 0:
        return max(1, total - addr)
    if k == 1:
        return max(1, total - addr + rng.randrange(-9, 30))
    if k == 2:
        return 8 * block + rng.randrange(-8, 9)
    if k == 3:
        return 8 * rng.randrange(1, 3 * block)
    return rng.randrange(1, 80)


# ---------------------------------------------------------------- execution

ENDIAN = {}


class StreamRun:

    def __init__(self, plan, ctx, faulty):
        from hachoir.core import config
        from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
        from hachoir.stream import InputStreamError
        from hachoir.core.log import log
        ENDIAN.update(B=BIG_ENDIAN, L=LITTLE_ENDIAN, M=MIDDLE_ENDIAN)
        config.quiet = True
        log.use_print = False
        self.plan = plan
        self.ctx = ctx
        self.faulty = faulty
        self.StreamError = InputStreamError
        self.data = bytes.fromhex(plan["data"])
        self.faults = Faults(ctx, plan.get("faults", ()))
        self.nodes = []
        self.views = []
        self.keep = []
        self.raw = None
        self.shrunk = False
        for desc in plan["nodes"]:
            self.build(desc)

    def build(self, desc):
        import hachoir.stream as hs
        from hachoir.stream.input import InputPipe
        t = desc["t"]
        data = self.data
        faults = self.faults
        if t in ("string", "bytesio", "buffered", "raw", "pipe", "espipe", "pipesize"):
            InputPipe.buffer_nb_min = self.plan["nb_min"]
            InputPipe.buffer_size = self.plan["bs"]
            model = Model(data, 0, len(data) * 8)
            small = False
            faults.enabled = False      # opening the stream succeeds
            if t == "string":
                stream = hs.StringInputStream(data)
            elif t == "bytesio":
                stream = hs.InputIOStream(io.BytesIO(data), source="sim")
            elif t in ("buffered", "raw"):
                self.raw = raw = RawSource(data, faults)
                if t == "buffered":
                    raw = io.BufferedReader(raw, desc["buf"])
                stream = hs.InputIOStream(raw, source="sim")
            else:
                cls = EspipeSource if t == "espipe" else PipeSource
                src = cls(data, desc.get("chunks") or [], faults)
                if t == "pipesize":
                    stream = hs.InputIOStream(src, size=len(data) * 8, source="sim")
                else:
                    stream = hs.InputIOStream(src, source="sim")
                small = True
            faults.enabled = True
            node = Node(stream, model, t, len(self.nodes))
            node.small = small
        else:
            of = self.nodes[desc["of"]]
            if of is None:
                self.nodes.append(None)
                return
            if t == "sub":
                model = of.model
                off, size = desc["off"], desc["size"]
                nbits = model.nbits - off if size is None else size
                if size is None and of.stream.size is None:
                    size = nbits
                stream = hs.InputSubStream(of.stream, off, size)
                model = Model(model.data, model.off + off, nbits)
            elif t == "concat":
                head = bytes.fromhex(desc["head"])
                stream = hs.ConcatStream((hs.StringInputStream(head), of.stream),
                                         source="concat")
                model = Model(head + of.model.all(), 0, of.model.nbits + 8 * len(head))
            else:
                cls = make_frag_classes()
                parser_cls = type("P", (cls,), {"layout": desc["layout"],
                                                "order": desc["order"]})
                content = []
                pos = 0
                for is_frag, nbytes in desc["layout"]:
                    if is_frag:
                        content.append(of.model.all()[pos:pos + nbytes])
                    pos += nbytes
                content = b"".join(content[i] for i in desc["order"])
                model = Model(content, 0, 8 * len(content))
                try:
                    self.faults.enabled = False
                    root = parser_cls(of.stream)
                    stream = root["frag[0]"].getSubIStream()
                except self.StreamError as err:
                    if of.small and "too small" in str(err):
                        self.nodes.append(None)
                        return
                    raise
                finally:
                    self.faults.enabled = True
                self.keep.append(root)
            node = Node(stream, model, t, of.root)
            node.small = of.small
        self.nodes.append(node)

    # -- judging errors

    def excused(self, node, err, fired):
        """May this exception happen on a valid read?"""
        if node.small and self.plan["nb_min"] < LARGE and "too small" in str(err):
            self.ctx.probe("pipe.cache_exceeded")
            return True
        if self.shrunk:
            return True
        return self.faults.fired > fired

    def call(self, node, func, *args):
        """Returns (value, None) or (None, exception)."""
        fired = self.faults.fired
        try:
            return func(*args), None
        except (OSError, self.StreamError) as err:
            return None, (err, self.excused(node, err, fired))

    def check_bits(self, what, node, address, size, result):
        shift, data, missing = result
        m = node.model
        inside = address + size <= m.nbits
        if inside and missing:
            raise Violation("lost-data", "%s: [%d..%d[ of %d bits is reported missing"
                            % (what, address, address + size, m.nbits))
        have = len(data) * 8 - shift
        if not inside and not missing:
            raise Violation("read-past-end", "%s: [%d..%d[ of %d bits is not reported"
                            " missing: %s" % (what, address, address + size, m.nbits,
                                              short(data)))
        if inside:
            if have < size:
                raise Violation("short-data", "%s: [%d..%d[ of %d bits: got %d bits"
                                % (what, address, address + size, m.nbits, have))
            n = size
        else:
            n = max(0, min(have, m.nbits - address))
        if n:
            got = int.from_bytes(data, "big") >> (len(data) * 8 - shift - n) & ((1 << n) - 1)
            if got != m.bits(address, n):
                raise Violation("wrong-data", "%s: [%d..%d[ of %d bits: got %s shift %d"
                                % (what, address, address + size, m.nbits,
                                   short(data), shift))

    def error(self, what, node, inside, exc):
        err, excused = exc
        if isinstance(err, OSError) and self.faults.fired == 0 and not self.shrunk:
            raise Violation("os-error", "%s: %r without any fault" % (what, err))
        if inside and not excused:
            raise Violation("spurious-error", "%s: %r on a valid range of %d bits"
                            % (what, err, node.model.nbits))
        self.ctx.probe("error.excused" if inside else "error.past_end")

    # -- operations

    def do(self, op):
        ctx = self.ctx
        name, i = op[0], op[1]
        ctx.op(*op)
        if name in ("fread", "freadall", "ftell", "fseek"):
            return self.do_view(op)
        if i >= len(self.nodes):
            return
        node = self.nodes[i]
        if node is None:
            return
        m = node.model
        s = node.stream
        what = "%s on %s" % (op, node.kind)
        if name == "open":
            if m.off % 8 or m.nbits % 8:
                return      # a file is made of bytes
            f, exc = self.call(node, s.file)
            if exc:
                return self.error(what, node, True, exc)
            self.views.append([f, io.BytesIO(m.all()), node, False])
            return
        if name == "read":
            _, _, address, size = op
            r, exc = self.call(node, s.read, address, size)
            inside = address + size <= m.nbits
            if exc:
                self.error(what, node, inside, exc)
            else:
                self.check_bits(what, node, address, size, r)
            ctx.state(node.kind, inside, exc is None, address % 8 == 0, s.size is None)
        elif name in ("bits", "int"):
            address, size, e = op[2], op[3], op[4]
            inside = address + size <= m.nbits
            if e == "M":
                if not m.aligned or m.off or (address + size + 15) // 16 * 16 > m.nbits:
                    return
            if name == "bits":
                r, exc = self.call(node, s.readBits, address, size, ENDIAN[e])
            else:
                r, exc = self.call(node, s.readInteger, address, op[5], size, ENDIAN[e])
            if exc:
                return self.error(what, node, inside, exc)
            if not inside:
                raise Violation("read-past-end", "%s: got %s of %d bits" % (what, r, m.nbits))
            want = {"B": m.bits, "L": m.little, "M": m.middle}[e](address, size)
            if name == "int" and op[5] and want >> (size - 1):
                want -= 1 << size
            if r != want:
                raise Violation("wrong-data", "%s: got %#x instead of %#x" % (what, r, want))
        elif name == "bytes":
            _, _, address, n = op
            if not m.aligned:
                return
            inside = address + 8 * n <= m.nbits
            r, exc = self.call(node, s.readBytes, address, n)
            if exc:
                return self.error(what, node, inside, exc)
            if not inside:
                raise Violation("read-past-end", "%s: got %s of %d bits" % (
                    what, short(r), m.nbits))
            if r != m.bytes(address, n):
                raise Violation("wrong-data", "%s: got %s" % (what, short(r)))
        elif name == "search":
            _, _, needle, start, end = op
            if not m.aligned or m.nbits % 8:
                return
            if start > m.nbits:
                return
            needle = bytes.fromhex(needle)
            r, exc = self.call(node, s.searchBytes, needle, start, end)
            if exc:
                return self.error(what, node, True, exc)
            stop = m.nbits // 8 if end is None else min(m.nbits, end) // 8
            pos = m.all()[:stop].find(needle, start // 8)
            want = None if pos < 0 else pos * 8
            if r != want:
                raise Violation("wrong-search", "%s: got %r instead of %r" % (what, r, want))
        elif name == "ge":
            size = op[2]
            r, exc = self.call(node, s.sizeGe, size)
            if exc:
                return self.error(what, node, True, exc)
            if bool(r) != (size <= m.nbits):
                if self.shrunk:
                    return
                raise Violation("wrong-size", "%s: %r but size is %d" % (what, r, m.nbits))
        elif name == "size":
            if s.size is not None and s.size != m.nbits:
                raise Violation("wrong-size", "%s: %r instead of %d" % (what, s.size, m.nbits))
        elif name == "gc":
            gc.collect()

    def do_view(self, op):
        name, v = op[0], op[1]
        if not self.views:
            return
        view = self.views[v % len(self.views)]
        f, ref, node, lost = view
        what = "%s on a view of %s" % (op, node.kind)
        if lost and name in ("fread", "freadall", "ftell"):
            # the position is not specified after an error
            return
        if not node.model.aligned or node.model.nbits % 8:
            return
        if name == "fseek":
            pos, whence = op[2], op[3]
            if lost and whence == 1:
                return
            base = {0: 0, 1: ref.tell(), 2: node.model.nbits // 8}[whence]
            if base + pos < 0:
                return      # not valid on a file
            _, exc = self.call(node, f.seek, pos, whence)
            if exc:
                view[3] = True
                return self.error(what, node, True, exc)
            ref.seek(base + pos)
            view[3] = False
            return
        if name == "ftell":
            r, exc = self.call(node, f.tell)
            want = ref.tell()
        elif name == "fread":
            r, exc = self.call(node, f.read, op[2])
            pos = ref.tell()
            want = ref.read(op[2])
        else:
            r, exc = self.call(node, f.read)
            pos = ref.tell()
            want = ref.read()
        if exc:
            view[3] = True
            return self.error(what, node, True, exc)
        if r != want:
            if (self.faults.fired or self.shrunk) and name == "fread" \
                    and r and want.startswith(r):
                # short read of a raw file
                ref.seek(pos + len(r))
                return
            raise Violation("wrong-tell" if name == "ftell" else "wrong-view",
                            "%s: got %s instead of %s" % (what, short(r), short(want)))
        self.ctx.state("view", node.kind, name, want == b"")

    def go(self):
        shrink = self.plan.get("shrink")
        for n, op in enumerate(self.plan["ops"]):
            if shrink and shrink[0] == n and self.raw is not None:
                full = self.raw.data
                self.raw.shrink(shrink[1])
                self.ctx.fault("device_shrinks")
                self.shrunk = True
            self.do(op)
        if self.shrunk:
            # the device is back: progress again, see final()
            self.raw.data = full

    def final(self):
        """Faults stop: everything must be readable again."""
        self.faults.enabled = False
        shrunk, self.shrunk = self.shrunk, False
        for i, node in enumerate(self.nodes):
            if node is None or node.small and self.plan["nb_min"] < LARGE:
                continue
            if shrunk and node.kind != "string":
                # buffered data may be stale, but must be readable
                for view in self.views:
                    if view[2] is node:
                        view[3] = True
            nbits = node.model.nbits
            for address in {0, max(0, nbits - 8), nbits // 2}:
                size = min(64, nbits - address)
                if size <= 0:
                    continue
                r, exc = self.call(node, node.stream.read, address, size)
                if exc:
                    raise Violation("no-recovery", "read(%d, %d) of %s fails after the "
                                    "faults stopped: %r" % (address, size, node.kind, exc[0]))
                self.check_bits("final read(%d, %d) of %s" % (address, size, node.kind),
                                node, address, size, r)


class StreamProp(Prop):
    faulty = False
    views = False
    lists = ("ops", "faults")
    real = ["hachoir.stream.input", "hachoir.stream.input_helper", "hachoir.field.link",
            "hachoir.core.bits"]
    stubs = ["raw device / pipe / socket under the stream (PipeSource, RawSource)"]
    steps = 20_000_000

    def setup(self):
        import hachoir.parser  # noqa
        import hachoir.stream  # noqa

    def gen(self, rng, index, tier):
        return gen_plan(rng, index, self.faulty, self.views)

    def run(self, plan, ctx):
        run = StreamRun(plan, ctx, self.faulty)
        run.go()
        run.final()

    def simplify(self, plan):
        # drop the last node
        if len(plan["nodes"]) > 1:
            p = dict(plan)
            p["nodes"] = plan["nodes"][:-1]
            p["ops"] = [op for op in plan["ops"]
                        if op[0] in ("fread", "freadall", "ftell", "fseek")
                        or op[1] < len(p["nodes"])]
            yield p
        if plan["nodes"][0].get("chunks"):
            for c in ([], [1], plan["nodes"][0]["chunks"][:1]):
                if c != plan["nodes"][0]["chunks"]:
                    p = dict(plan)
                    p["nodes"] = [dict(plan["nodes"][0], chunks=c)] + plan["nodes"][1:]
                    yield p
        if plan["nb_min"] != LARGE:
            yield dict(plan, nb_min=LARGE)


class S01(StreamProp):
    id = "S01"
    title = "Every stream reads as the linear sequence of its bytes"
    runs = {"quick": 6000, "thorough": 150000}
    rule = ("One run: random bytes behind a string, file or pipe with a seeded chunk "
            "schedule and cache size, a random stack of sub, concatenated and fragmented "
            "streams, and a random history of reads, searches and size questions, each "
            "compared with a linear model of the bytes. Non-trivial: at least one operation.")
    assumptions = ["a read asked to a source returns at least one byte before the end"]


class S02(StreamProp):
    id = "S02"
    title = "A failing device yields an error, never wrong or lost data"
    faulty = True
    runs = {"quick": 6000, "thorough": 150000}
    rule = ("As S01 with faults injected in the raw calls under the stream: EIO, EINTR, "
            "timeouts, short reads, a device which shrinks for a while; then faults stop "
            "and everything must be readable. Non-trivial: at least one fault fired.")
    assumptions = ["an injected error consumes no byte of the source"]

    def gen(self, rng, index, tier):
        return gen_plan(rng, index, True, rng.chance(0.3))

    def nontrivial(self, plan, summary):
        return bool(summary["faults"])


class S03(StreamProp):
    id = "S03"
    title = "File-like views of a stream behave like a file of its content"
    views = True
    runs = {"quick": 6000, "thorough": 150000}
    rule = ("As S01, with several file views open on the streams, whose seek, tell and "
            "read are interleaved with each other and with reads of the streams; each "
            "result is compared with io.BytesIO. Non-trivial: at least one operation.")
