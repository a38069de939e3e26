"""Random grammars for the field set engine: parsers which are data.

A layout is a list of items; each one makes one or several fields. Sizes may
depend on values, nested sets may be static, sized or not sized, seekable, may
refer to earlier fields by any path, and may fail. Forward references are not
generated: the engine documents that they are refused while feeding."""


def gen_layout(rng, depth=0, budget=None):
    if budget is None:
        budget = [rng.pick([5, 12, 25, 40])]
    items = []
    for _ in range(rng.randrange(1, 7)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        k = rng.randrange(20)
        name = rng.pick(["a", "b", "c", "len", "x[]", "y[]", "z[]"])
        if k < 5:
            items.append(["int", name, rng.pick([8, 8, 8, 16, 24, 32]), rng.chance(0.4)])
        elif k == 5:
            n = rng.pick([1, 3, 4, 7])
            items.append(["bits", name, n])
            items.append(["bits", name + "pad" if "[" not in name else "pad[]", 8 - n])
        elif k == 6:
            items.append(["bytes", name, rng.randrange(1, 9)])
        elif k == 7:
            items.append(["str", name, rng.pick(["cstr", "p8", "fixed"]), rng.randrange(1, 6)])
        elif k in (8, 9):
            items.append(["lenbytes", name, rng.randrange(1, 4), rng.pick([3, 7, 15])])
        elif k in (10, 11, 12) and depth < 4:
            items.append(["set", name, rng.pick(["plain", "plain", "sized", "static",
                                                 "valuesize"]),
                          rng.randrange(1, 24), gen_layout(rng, depth + 1, budget),
                          rng.chance(0.25)])
        elif k == 13 and depth < 4:
            items.append(["rep", rng.randrange(1, 4), rng.pick([1, 3, 5]),
                          gen_layout(rng, depth + 1, budget)])
        elif k == 14 and depth < 3:
            items.append(["seekset", name, rng.pick([None, 8, 16, 32]),
                          [[rng.randrange(0, 24), rng.randrange(1, 5)]
                           for _ in range(rng.randrange(1, 5))]])
        elif k == 15:
            items.append(["ref", name, rng.pick(["up", "root", "last"]),
                          rng.randrange(4)])
        elif k == 16 and depth < 4:
            items.append(["cond", rng.randrange(1, 4), rng.pick([1, 2, 4]),
                          gen_layout(rng, depth + 1, budget)])
        elif k == 17:
            items.append(rng.pick([["raise"], ["stop"], ["pad", rng.pick([2, 4, 8])],
                                   ["pad", 4], ["childlen", name]]))
        elif k == 18:
            items.append(["eofloop", name, rng.randrange(1, 5)])
        else:
            items.append(["int", name, 8, False])
    return items


def make_parser(layout, endian, seekable=False):
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    from hachoir.field import (Bits, Bytes, CString, FieldSet, Float32, Int8, Int16,
                               Int32, PascalString8, RawBytes, RootSeekableFieldSet,
                               SeekableFieldSet, String, UInt8, UInt16, UInt24, UInt32,
                               ParserError, Int24, PaddingBytes)
    from hachoir.parser import Parser, HachoirParser

    ints = {(8, False): UInt8, (16, False): UInt16, (24, False): UInt24,
            (32, False): UInt32, (8, True): Int8, (16, True): Int16,
            (24, True): Int24, (32, True): Int32}

    def last_value(fs, back):
        """Small positive value of one of the last fields of fs"""
        n = fs.current_length
        if n < back:
            return 1
        f = fs.getField(n - back)
        if f.is_field_set:
            return f.size // 8
        v = f.value
        return abs(v) if isinstance(v, int) else len(v)

    def fields(fs, layout):
        for item in layout:
            k = item[0]
            if k == "int":
                yield ints[item[2], item[3]](fs, item[1])
            elif k == "bits":
                yield Bits(fs, item[1], item[2])
            elif k == "bytes":
                yield RawBytes(fs, item[1], item[2])
            elif k == "str":
                if item[2] == "cstr":
                    yield CString(fs, item[1])
                elif item[2] == "p8":
                    yield PascalString8(fs, item[1])
                else:
                    yield String(fs, item[1], item[3])
            elif k == "lenbytes":
                n = last_value(fs, item[2]) & item[3]
                if n:
                    yield Bytes(fs, item[1], n)
            elif k == "set":
                kind, size = item[2], None
                if kind == "sized":
                    size = item[3] * 8
                elif kind == "valuesize":
                    size = 8 * (1 + last_value(fs, 1) % 17)
                cls = type("Set", (Set,), {"layout": item[4], "desc": item[5]})
                if kind == "static":
                    cls.static_size = item[3] * 8
                yield cls(fs, item[1], size=size)
            elif k == "rep":
                for _ in range(last_value(fs, item[1]) & item[2]):
                    yield from fields(fs, item[3])
            elif k == "seekset":
                yield type("Seek", (SeekSet,), {"jumps": item[3]})(
                    fs, item[1], size=item[2] and item[2] * 8)
            elif k == "ref":
                v = 1
                if item[2] == "last":
                    v = last_value(fs, 1)
                else:
                    of = fs.root if item[2] == "root" else fs.parent
                    first = of.getField(0) if of and of.current_length else None
                    if first is not None and not first.is_field_set:
                        v = first.value
                v = v if isinstance(v, int) else 1
                yield Bytes(fs, item[1], 1 + abs(v) % (3 + item[3]))
            elif k == "cond":
                if last_value(fs, item[1]) & item[2]:
                    yield from fields(fs, item[3])
            elif k == "raise":
                raise ParserError("simulated parser error")
            elif k == "stop":
                return
            elif k == "pad":
                n = -(fs.current_size // 8) % item[1]
                if n:
                    yield PaddingBytes(fs, "pad[]", n)
            elif k == "childlen":
                n = fs.current_length
                f = fs.getField(n - 1) if n else None
                if f is not None and f.is_field_set:
                    yield Bytes(fs, item[1], 1 + len(f) % 5)
            elif k == "eofloop":
                while not fs.eof:
                    yield RawBytes(fs, "loop[]", item[2])

    class Set(FieldSet):
        layout = ()
        desc = False

        def createFields(self):
            return fields(self, self.layout)

        def createDescription(self):
            if self.desc:
                return "first=%s count=%s" % (self[0].value if len(self) else None,
                                              len(self))
            return "set"

        def __getitem__(self, key):
            if isinstance(key, int):
                return self.getField(key, False)
            return FieldSet.__getitem__(self, key)

    class SeekSet(SeekableFieldSet):
        jumps = ()

        def createFields(self):
            for address, n in self.jumps:
                self.seekByte(address)
                yield RawBytes(self, "jump[]", n)

    class Synth(Parser):
        PARSER_TAGS = {"id": "synth", "min_size": 8, "description": "simulated grammar"}

        def validate(self):
            return True

        def createFields(self):
            return fields(self, layout)
    Synth.endian = LITTLE_ENDIAN if endian == "L" else BIG_ENDIAN

    class SynthSeek(HachoirParser, RootSeekableFieldSet):
        PARSER_TAGS = Synth.PARSER_TAGS
        endian = Synth.endian

        def __init__(self, stream, **args):
            RootSeekableFieldSet.__init__(self, None, "root", stream, None,
                                          stream.askSize(self))
            HachoirParser.__init__(self, stream, **args)

        def validate(self):
            return True

        def createFields(self):
            pos = 0
            for i, item in enumerate(layout):
                self.seekByte(pos)
                yield from fields(self, [item])
                pos = (pos * 7 + i + 5) % max(1, (self.stream.size or 800) // 8)
    return SynthSeek if seekable else Synth
