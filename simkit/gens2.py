"""More generated documents: containers, video and audio."""
import struct
import zlib

from simkit.gens import blob, fixed, words


def be(fmt, *args):
    return struct.pack(">" + fmt, *args)


def le(fmt, *args):
    return struct.pack("<" + fmt, *args)


# ------------------------------------------------------------------- mp4

def box(tag, data=b"", wide=False):
    tag = tag.encode("latin-1") if isinstance(tag, str) else tag
    if wide:
        return be("I4sQ", 1, tag, 16 + len(data)) + data
    return be("I4s", 8 + len(data), tag) + data


def full(tag, version, flags, data=b""):
    return box(tag, be("I", version << 24 | flags) + data)


MATRIX = be("9I", 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)


def descriptor(rng, tag, data):
    n = len(data)
    if rng.chance(0.5):
        size = bytes([0x80, 0x80, 0x80 | n >> 7, n & 127])
    else:
        size = bytes([n]) if n < 128 else bytes([0x80 | n >> 7, n & 127])
    return bytes([tag]) + size + data


def gen_mp4(rng, expected=None):
    def date(wide):
        t = 2082844800 + rng.pick([0, 1, 86399, 1262304000, rng.randrange(0, 2000000000)])
        return be("QQ" if wide else "II", t, t + rng.randrange(0, 100000))

    def table(tag, fmt, n=None):
        n = rng.randrange(0, 5) if n is None else n
        size = len(fmt)
        return full(tag, 0, 0, be("I", n) + b"".join(
            be(fmt, *[rng.randrange(1, 1000) for _ in range(size)]) for _ in range(n)))

    def esds():
        dcd = bytes([0x40, 0x15]) + rng.randbytes(11)
        if rng.chance(0.7):
            dcd += descriptor(rng, 5, rng.randbytes(rng.pick([2, 5, 130])))
        flags = rng.pick([0, 0x80, 0x40, 0x20, 0xe0]) | rng.randrange(32)
        es = be("HB", 1, flags)
        if flags & 0x80:
            es += be("H", 3)
        if flags & 0x40:
            es += b"\x08http://a"
        if flags & 0x20:
            es += be("H", 4)
        es += descriptor(rng, 4, dcd) + descriptor(rng, 6, b"\x02")
        return full("esds", 0, 0, descriptor(rng, 3, es))

    def avcc():
        def units(n):
            return b"".join(be("H", len(u)) + u for u in
                            [b"unit%d" % i for i in range(n)])
        profile = rng.pick([66, 77, 100, 110])
        a, b = rng.randrange(0, 3), rng.randrange(0, 3)
        data = bytes([1, profile, 0, 31, 0x03, a]) + units(a) + bytes([b]) + units(b)
        if profile >= 100 and rng.chance(0.6):
            c = rng.randrange(0, 2)
            data += bytes([1, 0, 2, c]) + units(c)
        return box("avcC", data)

    def sinf(original):
        data = box("frma", original)
        if rng.chance(0.7):
            uri = rng.chance(0.5)
            data += full("schm", 0, int(uri), b"cenc" + be("I", 0x10000)
                         + (b"http://x/\0" if uri else b""))
            if rng.chance(0.7):
                v = rng.randrange(2)
                iv = rng.pick([0, 8])
                tenc = bytes([0, 0x19 if v else 0, 1, iv]) + rng.randbytes(16)
                if not iv:
                    tenc += b"\x08" + rng.randbytes(8)
                data += box("schi", full("tenc", v, 0, tenc))
        return box("sinf", data)

    def sample_entry(kind):
        ref = bytes(6) + be("H", 1)
        if kind == "vide":
            fmt = rng.pick([b"avc1", b"encv", b"mp4v", b"raw ", b"jpeg"])
            name = b"codec"
            data = ref + be("HH4sIIHH", 0, 0, b"appl", 0, 512, 320, 240) + be(
                "IIIH", 72 << 16, 72 << 16, 0, 1) + bytes([len(name)]) + name.ljust(31, b"\0")
            data += be("Hh", 24, -1)
            if fmt in (b"avc1", b"encv"):
                data += avcc()
                if rng.chance(0.5):
                    data += box("btrt", be("III", 1, 2, 3))
            if fmt == b"mp4v":
                data += esds()
            if fmt == b"encv":
                data += sinf(b"avc1")
        elif kind == "soun":
            fmt = rng.pick([b"mp4a", b"enca", b"ec-3", b"twos"])
            data = ref + bytes(8) + be("HHHHI", rng.pick([1, 2]), 16, 0, 0, 44100 << 16)
            if fmt in (b"mp4a", b"enca"):
                data += esds()
            if fmt == b"enca":
                data += sinf(b"mp4a")
        else:
            fmt, data = b"rtp ", ref + rng.randbytes(rng.pick([0, 8]))
        if fmt in (b"raw ", b"jpeg", b"twos") and rng.chance(0.4):
            data += rng.randbytes(6)
        return box(fmt, data)

    def trak(i):
        kind = rng.pick(["vide", "soun", "hint"])
        v = rng.randrange(2)
        dur = "Q" if v else "I"
        tkhd = full("tkhd", v, rng.randrange(16), date(v) + be("II" + dur, i, 0, 1000)
                    + bytes(8) + be("hhHH", 0, 0, 0x100, 0) + MATRIX
                    + be("II", 320 << 16, 240 << 16))
        lang = rng.pick([0, 12, 138, 0x15c7, 0x55c4])
        mdhd = full("mdhd", v, 0, date(v) + be("I" + dur + "Hh", 600, 1200, lang, 0))
        name = b"Handler name"
        hdlr = full("hdlr", 0, 0, b"mhlr" + kind.encode() + bytes(12)
                    + (name + b"\0" if mpeg4 else bytes([len(name)]) + name))
        if kind == "vide":
            head = full("vmhd", 0, 1, be("4H", rng.pick([0, 0x20, 0x40, 0x103, 7]), 1, 2, 3))
        elif kind == "soun":
            head = full("smhd", 0, 0, be("HH", 0, 0))
        else:
            head = full("hmhd", 0, 0, be("HHIII", 1, 2, 3, 4, 0))
        refs = [rng.pick([full("url ", 0, 1), full("url ", 0, 0, b"http://a/b\0"),
                          full("urn ", 0, 0, b"name\0http://c\0")])
                for _ in range(rng.randrange(1, 3))]
        dinf = box("dinf", full("dref", 0, 0, be("I", len(refs)) + b"".join(refs)))
        entries = [sample_entry(kind) for _ in range(rng.pick([1, 1, 2]))]
        stbl = [full("stsd", 0, 0, be("I", len(entries)) + b"".join(entries)),
                table("stts", "II"), table("stsc", "III")]
        if rng.chance(0.5):
            stbl.append(table("ctts", "II"))
        if rng.chance(0.5):
            stbl.append(table("stss", "I"))
        n = rng.randrange(0, 6)
        k = rng.randrange(3)
        if k == 0:
            stbl.append(full("stsz", 0, 0, be("II", 0, n) + b"".join(
                be("I", rng.randrange(1, 5000)) for _ in range(n))))
        elif k == 1:
            stbl.append(full("stsz", 0, 0, be("II", 512, n)))
        else:
            bits = rng.pick([4, 8, 16])
            stbl.append(full("stz2", 0, 0, be("II", bits, n) + rng.randbytes((n * bits + 7) // 8)
                             if bits != 4 or n % 2 == 0 else
                             be("II", bits, n) + rng.randbytes(n // 2) + b"\x50"))
        stbl.append(table("stco", "I") if rng.chance(0.6) else table("co64", "Q"))
        minf = box("minf", head + dinf + box("stbl", b"".join(stbl)))
        out = tkhd
        if rng.chance(0.4):
            v = rng.randrange(2)
            n = rng.randrange(1, 3)
            out += box("edts", full("elst", v, 0, be("I", n) + be(
                "QqI" if v else "IiI", 500, -1, 0x10000) * n))
        if rng.chance(0.3):
            out += box("tref", box(rng.pick(["hint", "cdsc"]), be("II", 1, 2)))
        if not mpeg4 and rng.chance(0.3):
            out += box("load", be("IIII", 0, 1, 1, 4))
        return box("trak", out + box("mdia", mdhd + hdlr + minf))

    def tags():
        def item(tag, kind, data):
            return box(tag, box("data", be("II", kind, 0) + data))
        hdlr = full("hdlr", 0, 0, bytes(4) + b"mdirappl" + bytes(8) + b"\0")
        items = b""
        for tag in rng.sample(["\xa9nam", "\xa9ART", "\xa9alb", "\xa9day", "\xa9too", "\xa9cmt"],
                              rng.randrange(0, 5)):
            items += item(tag, 1, words(rng, 12).encode())
        if rng.chance(0.4):
            items += item("trkn", 0, bytes([0, 0, 0, 3, 0, 12, 0, 0]))
        if rng.chance(0.3):
            items += item("covr", 13, rng.randbytes(20))
        if rng.chance(0.3):
            items += box("----", full("mean", 0, 0, b"com.x") + full("name", 0, 0, b"n")
                         + box("data", be("II", 1, 0) + b"text"))
        if rng.chance(0.25):
            # keys of QuickTime
            names = [b"com.apple.%d" % i for i in range(rng.randrange(1, 4))]
            keys = full("keys", 0, 0, be("I", len(names)) + b"".join(
                box("mdta", n) for n in names))
            items = b""
            for i in range(len(names)):
                value = box("data", be("II", 1, 0) + b"value%d" % i)
                items += be("II", 8 + len(value), i + 1) + value
            hdlr = hdlr.replace(b"mdir", b"mdta")
            return full("meta", 0, 0, hdlr + keys + box("ilst", items))
        return full("meta", 0, 0, hdlr + box("ilst", items)
                    + (box("free", bytes(16)) if rng.chance(0.3) else b""))

    brand = rng.pick([None, b"qt  ", b"mp42", b"isom", b"M4A "])
    compat = [] if brand in (None, b"qt  ") else [b"mp42", b"isom"][:rng.randrange(1, 3)]
    mpeg4 = bool(compat)
    if brand in (b"mp42", b"isom"):
        compat = compat[:rng.randrange(0, 3)]
    out = []
    if brand:
        out.append(box("ftyp", brand + be("I", 512) + b"".join(compat)))
    v = rng.randrange(2)
    moov = full("mvhd", v, 0, date(v) + be("I" + ("Q" if v else "I") + "IH", 600, 6000,
                                           0x10000, 0x100)
                + bytes(10) + MATRIX + be("7I", 0, 0, 0, 0, 0, 0, 3))
    for i in range(rng.randrange(1, 4)):
        moov += trak(i + 1)
    if rng.chance(0.6) and mpeg4:
        udta = tags()
        if rng.chance(0.3):
            names = [b"one", b"two \xc3\xa9"]
            udta += full("chpl", 0, 0, be("IB", 0, len(names)) + b"".join(
                be("QB", 1000 * i, len(n)) + n for i, n in enumerate(names)))
        moov += box("udta", udta)
    if rng.chance(0.3):
        v = rng.randrange(2)
        moov += full("pssh", v, 0, rng.randbytes(16)
                     + (be("I", 2) + rng.randbytes(32) if v else b"")
                     + be("I", 5) + b"hello")
    out.append(box("moov", moov, wide=bool(brand) and rng.chance(0.2)))
    if rng.chance(0.3):
        out.append(box("free", bytes(rng.pick([0, 8]))))
    if rng.chance(0.3):
        out.append(box("uuid", rng.randbytes(16) + b"private"))
    if rng.chance(0.4):
        v = rng.randrange(2)
        n = rng.randrange(0, 3)
        out.append(full("sidx", v, 0, be("II" + ("QQ" if v else "II") + "HH", 1, 600, 0, 0, 0, n)
                        + be("III", 1000, 600, 0x90000000) * n))
        for i in range(rng.randrange(1, 3)):
            tf = rng.pick([0, 1, 2, 8, 0x10, 0x20, 0x3b])
            tfhd = be("I", 1)
            for bit, fmt in ((1, "Q"), (2, "I"), (8, "I"), (16, "I"), (32, "I")):
                if tf & bit:
                    tfhd += be(fmt, 7)
            tr = rng.pick([0, 1, 4, 5]) | rng.pick([0x100, 0x200, 0x300, 0xf00, 0x800])
            n = rng.randrange(0, 4)
            trun = be("I", n)
            for bit in (1, 4):
                if tr & bit:
                    trun += be("I", 9)
            trun += be("I", 5) * (n * bin(tr >> 8).count("1"))
            traf = full("tfhd", 0, tf, tfhd) + full("trun", 0, tr, trun)
            if rng.chance(0.3):
                sub = rng.randrange(2)
                senc = be("I", 2)
                for _ in range(2):
                    senc += rng.randbytes(8)
                    if sub:
                        senc += be("HHIHI", 2, 1, 2, 3, 4)
                traf += full("senc", 0, 2 * sub, senc)
            out.append(box("moof", full("mfhd", 0, 0, be("I", i)) + box("traf", traf)))
            out.append(box("mdat", blob(rng)))
        if rng.chance(0.5):
            v = rng.randrange(2)
            n = rng.randrange(0, 3)
            sizes = [rng.randrange(4) for _ in range(3)]
            entry = be("QQ" if v else "II", 1, 2) + b"".join(
                (1).to_bytes(k + 1, "big") for k in sizes)
            tfra = full("tfra", v, 0, be("III", 1, sizes[0] << 4 | sizes[1] << 2 | sizes[2], n)
                        + entry * n)
            out.append(box("mfra", tfra + full("mfro", 0, 0, be("I", 16 + len(tfra) + 8))))
    else:
        data = blob(rng)
        if rng.chance(0.3):
            out.append(be("I4s", 0, b"mdat") + data)
        else:
            out.append(box("mdat", data, wide=rng.chance(0.3)))
    return b"".join(out)


GENERATORS = {"mp4": gen_mp4}
GENERATED_ID = {"mp4": "mov"}
