"""O01: output streams write exactly what they are given, bit by bit."""
from simkit import docs, fs as simfs, seams
from simkit.core import Prop, Violation, short
from props.streams import Faults, RawSource

PATH = simfs.ROOT + "/out"


def bits_of(value, count, little):
    s = [(value >> i) & 1 for i in range(count)]
    return s if little else s[::-1]


def pack(bits, little):
    out = bytearray()
    for i in range(0, len(bits), 8):
        part = bits[i:i + 8]
        part = part + [0] * (8 - len(part))
        out.append(sum(b << (j if little else 7 - j) for j, b in enumerate(part)))
    return bytes(out)


class Model:
    """Bytes which are complete, and bits of the byte which is not"""

    def __init__(self):
        self.data = bytearray()
        self.pend = []
        self.little = False

    def write(self, bits):
        self.pend += bits
        n = len(self.pend) // 8 * 8
        self.data += pack(self.pend[:n], self.little)
        self.pend = self.pend[n:]

    def all(self):
        return bytes(self.data) + pack(self.pend, self.little)

    @property
    def address(self):
        return len(self.data) * 8 + len(self.pend)


class O01(Prop):
    id = "O01"
    title = "An output stream writes exactly the bits and bytes it is given"
    runs = {"quick": 12000, "thorough": 600000}
    method = ("seeded sequences of bit, integer, byte and copy operations on a simulated disk, "
              "against a list of bits; read back through the input streams")
    real = ["hachoir.stream.output", "hachoir.stream.input", "hachoir.core.bits",
            "io.BufferedWriter, io.BytesIO"]
    stubs = ["file system (memory, faults of the plan)", "source file (memory, faults)"]
    rule = ("One run: a sequence of writes of bits, integers and bytes and of copies from an "
            "input stream, on an output in memory or on a simulated disk with faults. The "
            "content must be the one of the model (a prefix of it if an error was raised), "
            "and what is read back must be what was written. Non-trivial: three writes.")
    assumptions = ["after an error the output stream is only closed"]

    def setup(self):
        import hachoir.stream  # noqa
        docs.quiet()

    def gen(self, rng, index, tier):
        medium = rng.pick(["string", "file", "file"])
        faults, inp = [], []
        if medium == "file" and rng.chance(0.5):
            faults = simfs.gen_faults(rng, ["write", "write", "close"], span=8)
        if rng.chance(0.2):
            inp = [[rng.randrange(6), "eio"]]
        aligned = rng.chance(0.3)
        ops = []
        for _ in range(rng.pick([3, 8, 20, 60])):
            k = rng.randrange(10)
            if k == 0 and not aligned:
                ops.append(["bit", rng.randrange(2)])
            elif k < 4:
                n = rng.pick([1, 2, 3, 5, 7, 8, 9, 13, 16, 24, 33, 64, 70])
                if aligned:
                    n = (n + 7) // 8 * 8
                v = rng.getrandbits(n)
                ops.append(["bits", n, rng.pick([v, v, 0, (1 << n) - 1, 1 << (n - 1)])])
            elif k == 4:
                ops.append(["align"])
            elif k == 5:
                n = rng.pick([1, 2, 3, 4, 8])
                signed = rng.chance(0.5)
                lo, hi = (-(1 << 8 * n - 1), 1 << 8 * n - 1) if signed else (0, 1 << 8 * n)
                ops.append(["int", n, signed, rng.pick([lo, hi - 1, 0, rng.randrange(lo, hi),
                                                        -1 if signed else 1])])
            elif k == 6:
                ops.append(["bytes", rng.randbytes(rng.pick([0, 1, 3, 300, 5000, 9000])).hex()])
            elif k == 7:
                ops.append(["copybits", rng.pick([rng.randrange(400), rng.randrange(50) * 8]),
                            rng.pick([1, 3, 7, 8, 12, 16, 31, 64, 200, 256, 257, 2047, 2056,
                                      2063, 3001, 40000, 40005])])
            elif k == 8:
                ops.append(["copybytes", rng.randrange(100) * 8, rng.pick(
                    [0, 1, 5, 4095, 4096, 4097, 9000])])
            else:
                ops.append(rng.pick([["endian"], ["read", rng.randrange(1000),
                                                  rng.randrange(1, 60)]]))
        return {"medium": medium, "faults": faults, "input": inp, "ops": ops,
                "seed": rng.randrange(1 << 30), "little": rng.chance(0.5),
                "close": rng.chance(0.8), "space": rng.pick([None] * 6 + [0, 1, 5000])
                if medium == "file" else None}

    def run(self, plan, ctx):
        from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
        from hachoir.stream import (FileOutputStream, InputIOStream, StringOutputStream,
                                    StringInputStream, InputStreamError, OutputStreamError)
        from simkit.core import make_rng
        source = make_rng(plan["seed"]).randbytes(12000)
        faults = Faults(ctx, plan["input"])
        faults.enabled = False
        inp = InputIOStream(RawSource(source, faults))
        faults.enabled = True
        disk = simfs.SimFS(ctx, plan["faults"], plan["space"])
        seams.env.fs = disk
        m = Model()
        m.little = plan["little"]
        out = StringOutputStream() if plan["medium"] == "string" else FileOutputStream(PATH)
        log = []
        error, error_pend = None, 0
        for op in plan["ops"]:
            endian = LITTLE_ENDIAN if m.little else BIG_ENDIAN
            k = op[0]
            if k == "align":
                n = -len(m.pend) % 8
                if not n:
                    continue
                op = ["bits", n, 0]
                k = "bits"
            aligned = not m.pend
            ctx.op(k, m.address)
            before = m.address
            try:
                if k == "bit":
                    m.write([op[1]])
                    log.append((before, 1, op[1], m.little))
                    out.writeBit(bool(op[1]), endian)
                elif k == "bits":
                    m.write(bits_of(op[2], op[1], m.little))
                    log.append((before, op[1], op[2], m.little))
                    out.writeBits(op[1], op[2], endian)
                elif k == "int" and aligned:
                    raw = op[3].to_bytes(op[1], "little" if m.little else "big", signed=op[2])
                    m.data += raw
                    log.append((before, op[1] * 8, op[3], m.little, op[2]))
                    out.writeInteger(op[3], op[2], op[1], endian)
                elif k == "bytes" and aligned:
                    m.data += bytes.fromhex(op[1])
                    out.writeBytes(bytes.fromhex(op[1]))
                elif k == "copybits":
                    ref = StringInputStream(source)
                    m.write(bits_of(ref.readBits(op[1], op[2], endian), op[2], m.little))
                    out.copyBitsFrom(inp, op[1], op[2], endian)
                elif k == "copybytes" and aligned:
                    m.data += source[op[1] // 8:op[1] // 8 + op[2]]
                    out.copyBytesFrom(inp, op[1], op[2])
                elif k == "endian" and aligned:
                    m.little = not m.little
                elif k == "read" and plan["medium"] == "file" and m.data:
                    # refused, or right
                    pos = op[1] % len(m.data)
                    try:
                        got = out.readBytes(pos * 8, op[2])
                    except OutputStreamError:
                        ctx.probe("read.refused")
                    else:
                        if got != bytes(m.data[pos:pos + op[2]]):
                            raise Violation("wrong-readback", "readBytes(%d, %d): %s" % (
                                pos * 8, op[2], short(got, 80)))
                elif k == "read" and plan["medium"] == "string" and m.data:
                    pos = op[1] % len(m.data)
                    got = out.readBytes(pos * 8, op[2])
                    want = bytes(m.data[pos:pos + op[2]])
                    if got != want:
                        raise Violation("wrong-readback", "readBytes(%d, %d): %s instead of %s"
                                        % (pos * 8, op[2], short(got, 80), short(want, 80)))
                    ctx.probe("read.back")
            except (OSError, InputStreamError) as err:
                if not disk.fired and not faults.fired and plan["space"] is None:
                    raise Violation("error", "%s at %d: %r" % (op[0], before, err)) from err
                error, error_pend = err, before % 8
                break
            except Violation:
                raise
            except Exception as err:
                raise Violation("exception", "%s at %d: %r" % (op, before, err)) from err
        if plan["medium"] == "string":
            content, want = self.string(out), bytes(m.data)
            if plan["close"]:
                out.close()
        else:
            want = m.all()
            try:
                out.close()
            except OSError as err:
                if not disk.fired and plan["space"] is None:
                    raise Violation("error", "close: %r" % err) from err
                error = error or err
            content = disk.content(PATH)
        ctx.event(error and type(error).__name__, len(content))
        if error is not None:
            ctx.probe("stopped.by_error")
            # the last byte may be the padded one of the operation which failed
            if not m.all().startswith(content) and not (
                    error_pend and m.all().startswith(content[:-1])):
                raise Violation("not-a-prefix", "after %r the content is not a prefix of what "
                                "was written: %d bytes" % (error, len(content)))
            return
        if content != want:
            i = next((i for i in range(min(len(content), len(want)))
                      if content[i] != want[i]), min(len(content), len(want)))
            raise Violation("wrong-content", "%d bytes instead of %d, first difference at %d: "
                            "%s instead of %s" % (len(content), len(want), i,
                                                  short(content[i:i + 20]),
                                                  short(want[i:i + 20])))
        if not content:
            return
        back = StringInputStream(content)
        for address, count, value, little, *signed in log:
            if address + count > len(content) * 8:
                continue
            endian = LITTLE_ENDIAN if little else BIG_ENDIAN
            got = (back.readInteger(address, signed[0], count, endian) if signed
                   else back.readBits(address, count, endian))
            if got != value:
                raise Violation("not-read-back", "%d bits at %d: %s instead of %s" % (
                    count, address, got, value))
            ctx.probe("value.compared")
        ctx.state(plan["medium"], m.little, len(m.pend), len(content) % 64)

    @staticmethod
    def string(out):
        """Content of a StringOutputStream, by its public method"""
        data = b""
        while True:
            part = out.readBytes(len(data) * 8, 4096)
            data += part
            if len(part) < 4096:
                return data

    def nontrivial(self, plan, summary):
        return summary["ops"] >= 3
