"""Generated documents of formats which the corpus has not, or has in one
variant only. Each generator gives a valid document of its format, at least as
far as the public descriptions of the format go."""
import struct
import zlib


def words(rng, n):
    out = []
    while n > 0:
        w = "".join(rng.pick("abcdefghijklmnop") for _ in range(rng.randrange(1, 9)))
        out.append(w)
        n -= len(w) + 1
    return " ".join(out)


def blob(rng, big=600):
    n = rng.pick([0, 1, 7, 64, rng.randrange(1, big)])
    return rng.randbytes(n) if rng.chance(0.5) else words(rng, n).encode()[:n]


def fixed(text, n, fill=b"\0"):
    if isinstance(text, str):
        text = text.encode("latin-1")
    return text[:n].ljust(n, fill)


# ---------------------------------------------------------------- archives

def gen_mozilla_ar(rng, expected=None):
    files = [blob(rng) or b"x" for _ in range(rng.randrange(1, 5))]
    pos = 8
    index = b""
    for i, data in enumerate(files):
        index += struct.pack(">III", pos, len(data), rng.pick([0o644, 0o755])) + b"file%d\0" % i
        pos += len(data)
        if expected is not None:
            expected.append(data)
    return (b"MAR1" + struct.pack(">I", pos) + b"".join(files)
            + struct.pack(">I", len(index)) + index)


def gen_mar(rng, expected=None):
    files = [blob(rng) for _ in range(rng.randrange(1, 5))]
    pos = 12 + 68 * len(files)
    index = body = b""
    for i, data in enumerate(files):
        gap = rng.pick([0, 0, 3]) if data else 0
        body += b"\0" * gap + data
        index += fixed("dir/file%d.txt" % i, 56) + struct.pack(
            "<III", len(data), zlib.crc32(data), pos + gap)
        pos += gap + len(data)
        if expected is not None and data:
            expected.append(data)
    return b"MARC" + struct.pack("<II", 3, len(files)) + index + body


# ------------------------------------------------------------------- misc

def gen_gnomekeyring(rng):
    def text(x):
        if x is None:
            return b"\xff\xff\xff\xff"
        x = x.encode()
        return struct.pack(">I", len(x)) + x
    out = b"GnomeKeyring\n\r\0\n\0\0\0\0"
    out += text(rng.pick(["login", "default"]))
    out += struct.pack(">QQII", 1200000000 + rng.randrange(1000), 1200000000,
                       rng.randrange(2) << 31, rng.randrange(1000))
    out += struct.pack(">I", 1234) + rng.randbytes(8) + bytes(16)
    items = rng.randrange(0, 4)
    out += struct.pack(">I", items)
    for i in range(items):
        attrs = rng.randrange(0, 4)
        out += struct.pack(">III", i + 1, rng.randrange(3), attrs)
        for j in range(attrs):
            out += text("attr%d" % j)
            if rng.chance(0.6):
                out += struct.pack(">I", 0) + text(rng.pick(["value", "caf\xe9", None]))
            else:
                out += struct.pack(">II", 1, rng.randrange(1000))
    data = rng.randbytes(16 * rng.randrange(1, 20))
    return out + struct.pack(">I", len(data)) + data


def gen_dsstore(rng):
    def text(x):
        return struct.pack(">I", len(x)) + x.encode("utf-16-be")

    def record(name):
        kind = rng.pick([b"long", b"shor", b"bool", b"blob", b"type", b"ustr"])
        out = text(name) + rng.pick([b"Iloc", b"bwsp", b"cmmt", b"lsvp", b"vstl"]) + kind
        if kind == b"long":
            out += struct.pack(">I", rng.randrange(1000))
        elif kind == b"shor":
            out += struct.pack(">I", rng.randrange(1000))
        elif kind == b"bool":
            out += bytes([rng.randrange(2)])
        elif kind == b"blob":
            data = blob(rng, 40)
            out += struct.pack(">I", len(data)) + data
        elif kind == b"type":
            out += b"icnv"
        else:
            out += text(words(rng, 8))
        return out

    def node(n, last=0, children=()):
        out = struct.pack(">II", last, n)
        for i in range(n):
            if last:
                out += struct.pack(">I", children[i])
            out += record("file%d \xe9" % i)
        return out
    # blocks: 0 allocator, 1 DSDB, 2.. nodes
    nodes = [node(rng.randrange(1, 4))]
    if rng.chance(0.5):
        nodes = [node(1, 4, [3]), node(rng.randrange(1, 4)), node(rng.randrange(1, 4))]
    dsdb = struct.pack(">IIIII", 2, len(nodes) > 1, 5, len(nodes), 0x1000)
    blocks = [None, (dsdb, 5)]
    for data in nodes:
        shift = 5
        while 1 << shift < len(data):
            shift += 1
        blocks.append((data, shift))
    pos = 0x20
    out = {}
    table = [0]
    for data, shift in blocks[1:]:
        size = 1 << shift
        pos = (pos + 31) // 32 * 32
        out[pos] = data.ljust(size, b"\0")
        table.append(pos | shift)
        pos += size
    pos = (pos + 31) // 32 * 32
    alloc_pos = pos
    table[0] = pos | 11
    alloc = struct.pack(">II", len(table), 0)
    for x in table:
        alloc += struct.pack(">I", x)
    alloc += bytes(4 * (256 - len(table)))
    alloc += struct.pack(">I", 1) + b"\4DSDB" + struct.pack(">I", 1)
    free = rng.chance(0.5)
    for i in range(32):
        if free and i == 6:
            alloc += struct.pack(">II", 1, alloc_pos + 2048)
        else:
            alloc += struct.pack(">I", 0)
    out[alloc_pos] = alloc.ljust(2048, b"\0")
    if free:
        out[alloc_pos + 2048] = bytes(64)
    header = b"Bud1" + struct.pack(">III", alloc_pos, 2048, alloc_pos)
    header += b"".join(struct.pack(">I", x) for x in (table + [0] * 4)[:4])
    size = max(p + len(d) for p, d in out.items())
    body = bytearray(size)
    body[:32] = header
    for p, d in out.items():
        body[p:p + len(d)] = d
    return b"\0\0\0\1" + bytes(body)


def gen_pcf(rng):
    big = rng.chance(0.5)
    end = ">" if big else "<"
    # format: always stored little endian
    fmt = struct.pack("<I", 0x04 if big else 0)
    # Properties
    names = ["FONT_NAME", "FOUNDRY", "WEIGHT", "AVERAGE_WIDTH"][:rng.randrange(1, 5)]
    strings = b""
    props = b""
    for name in names:
        props += struct.pack(end + "I", len(strings))
        strings += name.encode() + b"\0"
        if rng.chance(0.6):
            props += struct.pack(end + "BI", 1, len(strings))
            strings += words(rng, 10).encode() + b"\0"
        else:
            props += struct.pack(end + "BI", 0, rng.randrange(1000))
    prop = fmt + struct.pack(end + "I", len(names)) + props
    prop += bytes(-len(prop) % 4)
    prop += struct.pack(end + "I", len(strings)) + strings
    prop += bytes(-len(prop) % 4)
    # Glyph names
    n = rng.randrange(1, 6)
    offsets = b""
    strings = b""
    for i in range(n):
        offsets += struct.pack(end + "I", len(strings))
        strings += b"glyph%d\0" % i
    glyph = fmt + struct.pack(end + "I", n) + offsets + struct.pack(
        end + "I", len(strings)) + strings
    glyph += bytes(-len(glyph) % 4)
    tables = [(1, prop), (128, glyph), (8, fmt + rng.randbytes(40))]
    if rng.chance(0.3):
        tables.append((2, fmt + bytes(96)))
    pos = 8 + 16 * len(tables)
    toc = body = b""
    for kind, data in tables:
        toc += struct.pack("<IIII", kind, struct.unpack("<I", fmt)[0], len(data), pos)
        pos += len(data)
        body += data
    return b"\1fcp" + struct.pack("<I", len(tables)) + toc + body


def gen_hlp(rng):
    used = 38 + rng.pick([0, 1024])
    entry = struct.pack("<IIBHHH", used + 9, used, 4, 0x293b, 0x0402, 1024)
    entry += fixed("z4", 16) + struct.pack("<HHH", 0, 0, 0) + b"\xff\xff" + struct.pack(
        "<HHH", 1, 1, 3)
    entry += b"\0\0\0\0"
    entry = entry.ljust(used + 9, b"\0")
    end = blob(rng)
    gap = rng.randbytes(rng.pick([0, 5, 40]))
    size = 16 + len(gap) + len(entry) + len(end)
    return struct.pack("<IIiI", 0x00035F3F, 16 + len(gap), -1, size) + gap + entry + end


def gen_3do(rng):
    end = rng.pick("<>")

    def name(x):
        return fixed(x, 32)

    def u(*v):
        return struct.pack(end + "%dI" % len(v), *v)

    def f(n):
        return struct.pack(end + "%df" % n, *[rng.randrange(100) / 4 for _ in range(n)])
    out = b"LDOM" if end == "<" else b"MODL"
    mats = rng.randrange(0, 3)
    out += u(mats) + b"".join(name("mat%d.bmp" % i) for i in range(mats))
    out += name("model.3do") + bytes(4)
    geosets = rng.randrange(1, 3)
    out += u(geosets)
    for _ in range(geosets):
        meshes = rng.randrange(0, 3)
        out += u(meshes)
        for m in range(meshes):
            nv, nt, nf = rng.pick([0, 3]), rng.pick([0, 2]), rng.pick([0, 1, 2])
            out += name("mesh%d" % m) + u(m, 4, 3, 1, nv, nt, nf)
            out += f(3 * nv) + f(2 * nt) + f(nv) + f(nv)
            for i in range(nf):
                n, tex, mat = rng.pick([3, 4]), rng.randrange(2), rng.randrange(2)
                out += u(i, 0, 4, 3, 1, n) + f(1) + u(tex, mat) + f(3) + f(1) + f(3) + f(3)
                out += u(*range(n))
                if tex:
                    out += u(*range(n))
                if mat:
                    out += u(0)
            out += f(3 * nv)
            out += u(0) + f(1) + f(1) + f(3) + f(3)
    out += bytes(4)
    nodes = rng.randrange(1, 4)
    out += u(nodes)
    for i in range(nodes):
        parent, child, sibling = (rng.randrange(2) for _ in range(3))
        out += name("node%d" % i) + b"\xcc" * 32 + u(0, i, 1) + struct.pack(
            end + "i", i) + u(0) + struct.pack(end + "i", parent) + u(1, child, sibling)
        out += f(6) + f(3) + f(12)
        for x in (parent, child, sibling):
            if x:
                out += u(i)
    out += f(1) + f(3)
    return out + blob(rng, 30)


def gen_mstask(rng):
    def text(x):
        if not x:
            return b"\0\0"
        x += "\0"
        return struct.pack("<H", len(x)) + x.encode("utf-16-le")
    out = struct.pack("<HH", rng.pick([0x400, 0x501, 0x600]), 1) + rng.randbytes(16)
    out += struct.pack("<HHHHHH", 70, 200, 0, 0, 60, 10)
    out += struct.pack("<III", 32, 259200000, 0) + struct.pack(
        "<I", rng.pick([0x41300, 0x41303, 0x41305]))
    out += struct.pack("<I", rng.randrange(1 << 14))
    out += struct.pack("<8H", 2008, rng.randrange(1, 13), 1, 4, 12, 30, 0, 0)
    out += struct.pack("<H", 0)
    for x in ("notepad.exe", words(rng, 10), "C:\\", "user", rng.pick(["", "comment"])):
        out += text(x)
    out += struct.pack("<H", 0)
    n = rng.pick([0, 8, 8, 4])
    out += struct.pack("<H", n) + bytes(n)
    triggers = rng.randrange(0, 4)
    out += struct.pack("<H", triggers)
    for _ in range(triggers):
        out += struct.pack("<2H6H2H", 48, 0, 2008, 1, 2, 0, 0, 0, 12, 30)
        out += struct.pack("<III", 0, 0, rng.randrange(8))
        out += struct.pack("<I6H", rng.randrange(8), 1, 2, 3, 0, 0, 0)
    return out


def gen_zsnes(rng):
    return fixed("ZSNES Save State File V143", 26) + bytes([26, 143]) + rng.randbytes(
        3063) + bytes(282459 - 3091)


# ------------------------------------------------------------------ images

def gen_blp1(rng):
    jpeg = rng.chance(0.3)
    w, h = rng.pick([1, 2, 4, 8]), rng.pick([1, 2, 4, 8])
    kind = rng.pick([3, 4, 5])
    head = b"BLP1" + struct.pack("<IIIIII", 0 if jpeg else 1, 8, w, h, kind, 1)
    pos = len(head) + 128
    pre = b""
    if jpeg:
        pre = b"\xff\xd8" + rng.randbytes(20)
        pre = struct.pack("<I", len(pre)) + pre
    else:
        pre = rng.randbytes(1024)
    pos += len(pre)
    offsets, sizes, body = [], [], b""
    levels = rng.randrange(1, 4)
    for i in range(16):
        if i >= levels or (not jpeg and min(w >> i, h >> i) < 1):
            offsets.append(0)
            sizes.append(0)
            continue
        n = (w >> i) * (h >> i)
        data = rng.randbytes(30 if jpeg else n * (2 if kind in (3, 4) else 1))
        offsets.append(pos)
        sizes.append(len(data))
        body += data
        pos += len(data)
    return head + struct.pack("<16I", *offsets) + struct.pack("<16I", *sizes) + pre + body


def gen_blp2(rng):
    mode = rng.pick(["jpeg", "raw0", "raw1", "raw8", "dxt1", "dxt3", "dxt5"])
    w = h = rng.pick([4, 8, 16])
    comp = 0 if mode == "jpeg" else 1
    enc = 2 if mode[:3] == "dxt" else 1
    depth = {"raw0": 0, "raw1": 1, "raw8": 8, "dxt1": rng.pick([0, 1]), "dxt3": 8,
             "dxt5": 8, "jpeg": 0}[mode]
    aenc = {"dxt3": 1, "dxt5": 7}.get(mode, 0)
    mips = rng.randrange(2)
    head = b"BLP2" + struct.pack("<IBBBBII", comp, enc, depth, aenc, mips, w, h)
    pre = rng.randbytes(1024)
    if mode == "jpeg":
        pre += struct.pack("<I", 10) + rng.randbytes(10)
    pos = len(head) + 128 + len(pre)
    offsets, sizes, body = [], [], b""
    for i in range(16):
        ww, hh = w >> i, h >> i
        if (i and not mips) or ww < 1 or (depth == 1 and ww * hh < 8):
            offsets.append(0)
            sizes.append(0)
            continue
        if mode == "jpeg":
            n = 20
        elif enc == 2:
            n = ((ww + 3) // 4) * ((hh + 3) // 4) * (8 if mode == "dxt1" else 16)
        else:
            n = ww * hh + (0 if depth == 0 else (ww * hh + 7) // 8 if depth == 1 else ww * hh)
        offsets.append(pos)
        sizes.append(n)
        body += rng.randbytes(n)
        pos += n
    return head + struct.pack("<16I", *offsets) + struct.pack("<16I", *sizes) + pre + body


def gen_psd(rng):
    w, h = rng.randrange(1, 40), rng.randrange(1, 40)
    chan = rng.pick([1, 3, 4])
    mode = rng.pick([1, 3, 2])
    out = b"8BPS" + struct.pack(">H6sHIIHH", 1, bytes(6), chan, h, w, 8, mode)
    data = rng.randbytes(768) if mode == 2 else b""
    out += struct.pack(">I", len(data)) + data

    def res(tag, data):
        return b"8BIM" + struct.pack(">HHI", tag, 0, len(data)) + data + bytes(len(data) % 2)
    config = b""
    if rng.chance(0.7):
        config += res(0x03ed, struct.pack(">HHHHHHHH", 72, 0, 1, 2, 72, 0, 1, 2))
    if rng.chance(0.5):
        config += res(0x0406, rng.randbytes(7))
    if rng.chance(0.5):
        config += res(0x040d, struct.pack(">I", 30))
    if rng.chance(0.5):
        iptc = b""
        for tag, text in ((5, "title"), (80, "author"), (116, "copyright")):
            if rng.chance(0.6):
                iptc += struct.pack(">BBBH", 0x1c, 2, tag, len(text)) + text.encode()
        if iptc:
            config += res(0x0404, iptc)
    if rng.chance(0.5):
        config += res(0x040b, b"http://example.com/")
    out += struct.pack(">I", len(config)) + config
    data = blob(rng, 60)
    out += struct.pack(">I", len(data)) + data
    return out + struct.pack(">H", 0) + rng.randbytes(w * h * chan)


def gen_gif(rng):
    w, h = rng.randrange(1, 60), rng.randrange(1, 60)
    table = rng.chance(0.8)
    bits = rng.randrange(1, 4)
    v = rng.pick([b"GIF89a", b"GIF89a", b"GIF87a"])
    out = v + struct.pack("<HHBBB", w, h, (table << 7) | 0x70 | bits, 0, 0)
    if table:
        out += rng.randbytes(3 << (bits + 1))

    def blocks(data):
        s = b""
        for i in range(0, len(data), 255):
            part = data[i:i + 255]
            s += bytes([len(part)]) + part
        return s + b"\0"
    if v == b"GIF89a":
        if rng.chance(0.5):
            out += b"\x21\xfe" + blocks(words(rng, rng.pick([10, 300])).encode())
        if rng.chance(0.4):
            out += b"\x21\xff\x0bNETSCAPE2.0" + b"\x03\x01" + struct.pack("<H", 5) + b"\0"
    for _ in range(rng.randrange(1, 4)):
        if v == b"GIF89a" and rng.chance(0.6):
            out += b"\x21\xf9\x04" + struct.pack("<BHB", rng.pick([0, 1, 4]), 10, 0) + b"\0"
        out += b"\x2c" + struct.pack("<HHHHB", 0, 0, w, h, 0)
        # LZW with only literals: codes of 9 bits, cleared often enough
        size = 8
        codes = []
        for i in range(w * h):
            if i % 200 == 0:
                codes.append(256)
            codes.append(rng.randrange(1 << (bits + 1)))
        codes.append(257)
        acc = n = 0
        data = bytearray()
        for c in codes:
            acc |= c << n
            n += 9
            while n >= 8:
                data.append(acc & 255)
                acc >>= 8
                n -= 8
        if n:
            data.append(acc & 255)
        out += bytes([size]) + blocks(bytes(data))
    return out + b"\x3b"


def gen_tiff(rng):
    end = rng.pick("<>")
    tags = {}
    w, h = rng.randrange(1, 30), rng.randrange(1, 30)
    pix = rng.randbytes(w * h)

    def short_(v):
        return (3, 1, struct.pack(end + "HH", v, 0))

    def long_(v):
        return (4, 1, struct.pack(end + "I", v))

    def ascii_(s):
        s = s.encode() + b"\0"
        return (2, len(s), s)
    tags[256] = long_(w)
    tags[257] = short_(h)
    tags[258] = short_(8)
    tags[259] = short_(1)
    tags[262] = short_(1)
    tags[277] = short_(1)
    tags[278] = short_(h)
    tags[282] = (5, 1, struct.pack(end + "II", 72, 1))
    tags[283] = (5, 1, struct.pack(end + "II", 300, 4))
    for tag, text in ((270, "description"), (271, "Maker"), (272, "Mo"), (305, "software 1.0"),
                      (306, rng.pick(["2008:01:02 03:04:05", "9998:01:02 03:04:05"])), (315, "artist"), (33432, "copyright")):
        if rng.chance(0.5):
            tags[tag] = ascii_(text)
    out = b"MM\0\x2a" if end == ">" else b"II\x2a\0"
    out += struct.pack(end + "I", 8)
    thumb = {256: long_(4), 257: long_(4), 513: long_(8), 514: long_(2), 271: ascii_("thumb")}
    dirs = [tags] + [thumb, dict(tags)][:rng.pick([0, 0, 1, 2])]
    if rng.chance(0.2):
        dirs.reverse()
    for i, one in enumerate(dirs):
        images = []
        if one is not thumb:
            for _ in range(rng.pick([1, 1, 3])):
                images.append(rng.randbytes(rng.randrange(1, 40)))
            kinds = rng.pick([(273, 279), (324, 325)])
            for tag in kinds:
                one[tag] = (4, len(images), bytes(4 * len(images)))
        # the second round knows the addresses of the images
        for _ in (1, 2):
            ifd = struct.pack(end + "H", len(one))
            extra = b""
            pos = len(out) + 2 + 12 * len(one) + 4
            for tag in sorted(one):
                kind, count, data = one[tag]
                if len(data) > 4:
                    off = pos + len(extra)
                    extra += data + bytes(len(data) % 2)
                    data = struct.pack(end + "I", off)
                ifd += struct.pack(end + "HHI", tag, kind, count) + data.ljust(4, b"\0")
            pos += len(extra)
            if images:
                n = len(images)
                starts = [pos + sum(map(len, images[:j])) for j in range(n)]
                one[kinds[0]] = (4, n, struct.pack(end + "%dI" % n, *starts))
                one[kinds[1]] = (4, n, struct.pack(end + "%dI" % n, *map(len, images)))
            pos += sum(map(len, images))
        pad = bytes(pos % 2)
        ifd += struct.pack(end + "I", pos + len(pad) if i + 1 < len(dirs) else 0)
        out += ifd + extra + b"".join(images) + pad
    return out


# ------------------------------------------------------------- audio, video

def gen_real_audio(rng):
    def s(x):
        return bytes([len(x)]) + x
    meta = (s(words(rng, 10).encode()) + s(b"author") + s(rng.pick([b"", b"(c) 1999"]))
            + s(rng.pick([b"", b"comment"])))
    audio = blob(rng) or b"x"
    if rng.chance(0.4):
        head = rng.randbytes(10) + struct.pack(">I", len(audio)) + meta + b"\0" + s(b"lpcJ")
        return b".ra\xfd" + struct.pack(">HH", 3, len(head)) + head + audio
    tail = struct.pack(">HI", 0, 0x100) + rng.randbytes(12) + struct.pack(
        ">HHHHHHHH", 1, 240, 0, 0, rng.pick([8000, 22050, 44100]), 0, 16, rng.pick([1, 2]))
    tail += s(b"Int4") + s(b"28_8") + b"\1\7\0" + meta
    # header: from the version to the comment
    size = 4 + 2 + 2 + 4 + 4 + 2 + 4 + len(tail)
    return (b".ra\xfd" + struct.pack(">HH", 4, 0) + b".ra4" + struct.pack(
        ">IHI", size + len(audio) - 40, 4, size - 16) + tail + audio)


def gen_mod(rng):
    tag, channels = rng.pick([(b"M.K.", 4), (b"6CHN", 6), (b"8CHN", 8), (b"FLT4", 4)])
    out = fixed("song " + words(rng, 5), 20)
    samples = []
    for i in range(31):
        n = rng.pick([0, 0, 0, 5, 20])
        samples.append(rng.randbytes(2 * n))
        out += fixed("sample %d" % i if n else "", 22) + struct.pack(
            ">HBBHH", n, rng.randrange(16), rng.pick([0, 32, 64]), 0, 1)
    length = rng.randrange(1, 5)
    patterns = rng.randrange(1, 4)
    order = [rng.randrange(patterns) for _ in range(length)]
    order[0] = patterns - 1
    out += bytes([length, 127]) + bytes(order).ljust(128, b"\0") + tag
    for _ in range(patterns):
        out += rng.randbytes(64 * 4 * channels)
    return out + b"".join(samples)


def gen_spiderman(rng):
    def chunk(tag, data):
        return tag + struct.pack(">I", 8 + len(data)) + data
    out = chunk(b"CONF", rng.randbytes(8))
    for _ in range(rng.randrange(1, 4)):
        out += chunk(b"AUDI", blob(rng)) + chunk(b"SYNC", b"")
        for tag in (b"IVRA", b"VRAM", b"CRAM"):
            if rng.chance(0.6):
                out += chunk(tag, blob(rng))
        out += chunk(b"CEND", b"")
    return out + chunk(b"MEND", b"")


def riff(kind, body):
    return b"RIFF" + struct.pack("<I", 4 + len(body)) + kind + body


def rchunk(tag, data):
    return tag + struct.pack("<I", len(data)) + data + bytes(len(data) % 2)


DATES = ["2005-06-21", "2005-06-21", "2005-06-21 10:20:30", "2005", "1849-01-01", "1802-02-03",
         "2031-01-01", "9999-12-31", "0000-00-00", "2005-13-45", "21/06/2005", "today"]


def info_list(rng):
    out = b""
    for tag, text in ((b"INAM", "title"), (b"IART", "artist"), (b"ICMT", "a comment"),
                      (b"ICOP", "(c) me"), (b"ISFT", "producer"), (b"ICRD", rng.pick(DATES)),
                      (b"IENG", "engineer")):
        if rng.chance(0.4):
            out += rchunk(tag, text.encode() + b"\0")
    return rchunk(b"LIST", b"INFO" + out) if out else b""


def gen_avi(rng):
    w, h = rng.randrange(16, 640), rng.randrange(16, 480)
    frames = rng.randrange(1, 200)
    fps = rng.pick([24, 25, 30])
    avih = struct.pack("<II4xIIIIIIIIIII", 1000000 // fps, 100000, 0x10 | 0x800, frames, 0,
                       rng.pick([1, 2]), 4096, w, h, 1, fps, 0, frames)

    def strh(kind, fourcc, scale, rate, length):
        return rchunk(b"strh", kind + fourcc + struct.pack(
            "<IHHIIIIIIIIHHHH", 0, 0, 0, 0, scale, rate, 0, length, 4096, 0, 0, 0, 0, w, h))
    video = strh(b"vids", rng.pick([b"XVID", b"DIVX", b"mjpg"]), 1, fps, frames)
    video += rchunk(b"strf", struct.pack("<IIIHHIIIIII", 40, w, h, 1, 24, 0, w * h * 3, 0, 0,
                                         0, 0))
    streams = rchunk(b"LIST", b"strl" + video)
    if rng.chance(0.6):
        rate = rng.pick([8000, 44100])
        audio = strh(b"auds", bytes(4), 1, rate, rate * 3)
        audio += rchunk(b"strf", struct.pack("<HHIIHHH", rng.pick([1, 0x55]), 2, rate, 16000, 4,
                                             16, 0))
        streams += rchunk(b"LIST", b"strl" + audio)
    if rng.chance(0.3):
        streams += rchunk(b"LIST", b"odml" + rchunk(b"dmlh", struct.pack("<I", frames)
                                                    + bytes(16)))
    body = rchunk(b"LIST", b"hdrl" + rchunk(b"avih", avih) + streams)
    info = info_list(rng)
    if rng.chance(0.5):
        body += info
        info = b""
    if rng.chance(0.4):
        body += rchunk(b"JUNK", bytes(rng.pick([10, 200])))
    movi = index = b""
    for i in range(rng.randrange(1, 12)):
        tag = rng.pick([b"00dc", b"01wb"])
        data = rng.randbytes(rng.pick([10, 50, 300]))
        index += tag + struct.pack("<III", 0x10, 4 + len(movi), len(data))
        movi += rchunk(tag, data)
    body += rchunk(b"LIST", b"movi" + movi)
    if rng.chance(0.7):
        body += rchunk(b"idx1", index)
    return riff(b"AVI ", body + info)


def gen_wave_info(rng):
    rate = rng.pick([8000, 22050, 44100])
    body = rchunk(b"fmt ", struct.pack("<HHIIHH", 1, 2, rate, rate * 4, 4, 16))
    if rng.chance(0.4):
        body += rchunk(b"fact", struct.pack("<I", rate * 2))
    info = info_list(rng)
    if rng.chance(0.5):
        body += info
        info = b""
    body += rchunk(b"data", rng.randbytes(4 * rng.randrange(1, 500)))
    return riff(b"WAVE", body + info)


def gen_ani(rng):
    icon = struct.pack("<HHH", 0, 1, 1) + struct.pack("<BBBBHHII", 16, 16, 0, 0, 1, 8, 40 + 64,
                                                     22)
    icon += struct.pack("<IiiHHIIiiII", 40, 16, 32, 1, 1, 0, 0, 0, 0, 0, 0) + bytes(64)
    n = rng.randrange(1, 4)
    body = rchunk(b"anih", struct.pack("<9I", 36, n, n, 0, 0, 0, 0, rng.pick([6, 10]), 1))
    if rng.chance(0.6):
        body += rchunk(b"rate", struct.pack("<%dI" % n, *[rng.pick([5, 10]) for _ in range(n)]))
    if rng.chance(0.5):
        body += rchunk(b"seq ", struct.pack("<%dI" % n, *range(n)))
    body += rchunk(b"LIST", b"fram" + b"".join(rchunk(b"icon", icon) for _ in range(n)))
    return riff(b"ACON", body)


def gen_cda(rng):
    m, s, f = rng.randrange(60), rng.randrange(60), rng.randrange(75)
    body = struct.pack("<HHIII", 1, rng.randrange(1, 20), rng.getrandbits(32), 1000, 2000)
    body += bytes([f, s, m, 0]) + bytes([1, 2, 3, 0])
    return riff(b"CDDA", rchunk(b"fmt ", body))


def gen_au(rng):
    note = words(rng, rng.pick([4, 20])).encode() + b"\0"
    note = note.ljust((len(note) + 7) // 8 * 8, b"\0")
    data = rng.randbytes(rng.randrange(1, 3000))
    return b".snd" + struct.pack(">IIIII", 24 + len(note), len(data), rng.pick([1, 2, 3, 6]),
                                 rng.pick([8000, 44100]), rng.pick([1, 2])) + note + data


def gen_aiff(rng):
    def ck(tag, data):
        return tag + struct.pack(">I", len(data)) + data + bytes(len(data) % 2)
    ch = rng.pick([1, 2])
    n = rng.randrange(1, 800)
    rate = {8000: b"\x40\x0b\xfa\0\0\0\0\0\0\0", 44100: b"\x40\x0e\xac\x44\0\0\0\0\0\0"}[
        rng.pick([8000, 44100])]
    body = b""
    for tag, text in ((b"NAME", b"a name"), (b"AUTH", b"author"), (b"(c) ", b"copyright"),
                      (b"ANNO", b"note!")):
        if rng.chance(0.4):
            body += ck(tag, text)
    body += ck(b"COMM", struct.pack(">hIh", ch, n, 16) + rate)
    body += ck(b"SSND", struct.pack(">II", 0, 0) + rng.randbytes(n * ch * 2))
    return b"FORM" + struct.pack(">I", 4 + len(body)) + b"AIFF" + body


def gen_midi(rng):
    def var(n):
        out = bytes([n & 127])
        while n > 127:
            n >>= 7
            out = bytes([128 | n & 127]) + out
        return out
    tracks = b""
    n = rng.randrange(1, 4)
    for t in range(n):
        ev = b""
        for kind, text in ((3, "track %d" % t), (2, "copyright"), (1, "some text")):
            if rng.chance(0.5):
                ev += b"\0\xff" + bytes([kind]) + var(len(text)) + text.encode()
        if t == 0:
            ev += b"\0\xff\x51\x03" + struct.pack(">I", rng.randrange(200000, 900000))[1:]
            ev += b"\0\xff\x58\x04\x04\x02\x18\x08"
        for _ in range(rng.randrange(0, 20)):
            c = rng.randrange(16)
            ev += var(rng.pick([0, 10, 200, 20000]))
            k = rng.randrange(5)
            if k < 2:
                ev += bytes([0x90 | c, rng.randrange(128), rng.randrange(128)])
            elif k == 2:
                ev += bytes([0xc0 | c, rng.randrange(128)])
            elif k == 3:
                ev += bytes([0xb0 | c, 7, rng.randrange(128)])
            else:
                ev += bytes([0xe0 | c, rng.randrange(128), rng.randrange(128)])
        ev += b"\0\xff\x2f\0"
        tracks += b"MTrk" + struct.pack(">I", len(ev)) + ev
    return b"MThd" + struct.pack(">IHHH", 6, int(n > 1), n, rng.pick([96, 480])) + tracks


# ------------------------------------------------------------------ others

def bencode(x):
    if isinstance(x, int):
        return b"i%de" % x
    if isinstance(x, str):
        x = x.encode()
    if isinstance(x, bytes):
        return b"%d:%s" % (len(x), x)
    if isinstance(x, list):
        return b"l" + b"".join(map(bencode, x)) + b"e"
    return b"d" + b"".join(bencode(k) + bencode(x[k]) for k in sorted(x)) + b"e"


def gen_torrent(rng):
    info = {"name": words(rng, 8), "piece length": 1 << rng.randrange(14, 20),
            "pieces": rng.randbytes(20 * rng.randrange(1, 10))}
    if rng.chance(0.5):
        info["length"] = rng.randrange(1 << 40)
    else:
        info["files"] = [{"length": rng.randrange(10000), "path": ["dir", "file%d" % i]}
                         for i in range(rng.randrange(1, 4))]
    doc = {"announce": "http://tracker.example.com:6969/announce", "info": info}
    if rng.chance(0.5):
        doc["comment"] = words(rng, 12)
    if rng.chance(0.5):
        doc["creation date"] = 1100000000 + rng.randrange(1000)
    if rng.chance(0.5):
        doc["created by"] = "a program"
    if rng.chance(0.3):
        doc["announce-list"] = [["http://a/"], ["http://b/"]]
    return bencode(doc)


def gen_iso9660(rng):
    def both(n, size):
        return n.to_bytes(size, "little") + n.to_bytes(size, "big")
    vol = b"\1CD001\1\0" + fixed("LINUX", 32, b" ") + fixed(rng.pick(["CDROM", "MY DISC"]), 32,
                                                           b" ")
    vol += bytes(8) + both(200, 4) + bytes(32) + both(1, 2) + both(1, 2) + both(2048, 2)
    vol += both(10, 4) + struct.pack("<II", 19, 0) + struct.pack(">II", 21, 0)
    vol += bytes([34]) + bytes(33)
    vol += b" " * 128 + fixed("PUBLISHER", 128, b" ") + fixed("PREPARER", 128, b" ")
    vol += fixed("APPLICATION", 128, b" ") + b" " * 37 * 3
    vol += (b"2008010203040500\0") * 2 + (b"0" * 16 + b"\0") * 2 + b"\1\0" + bytes(512)
    vol = vol.ljust(2048, b"\0")
    out = bytes(0x8000) + vol
    if rng.chance(0.4):
        out += b"\0CD001\1" + fixed("EL TORITO SPECIFICATION", 31) + bytes(31) + bytes(1979)
    return out + b"\xffCD001\1" + bytes(2041) + blob(rng)


def gen_macho_any(rng, fat):
    if fat:
        end = ">"
        magic = b"\xca\xfe\xba\xbe"
        parts = [gen_macho_any(rng, False) for _ in range(rng.randrange(1, 3))]
        out = b""
        pos = 4096
        body = b""
        for p in parts:
            p = p.ljust((len(p) + 4095) // 4096 * 4096, b"\0")
            out += struct.pack(">iiIII", 7, 3, pos, len(p), 12)
            pos += len(p)
            body += p
        return (magic + struct.pack(">I", len(parts)) + out).ljust(4096, b"\0") + body
    end = rng.pick("<>")
    is64 = rng.chance(0.5)
    cmds = b""
    n = 0

    def cmd(c, data):
        nonlocal cmds, n
        data += bytes(-len(data) % (8 if is64 else 4))
        cmds += struct.pack(end + "II", c, 8 + len(data)) + data
        n += 1
    for name in ("__TEXT", "__DATA")[:rng.randrange(1, 3)]:
        sects = rng.randrange(0, 3)
        w = "Q" if is64 else "I"
        seg = fixed(name, 16) + struct.pack(end + 4 * w + "iiII", 0x1000, 0x1000, 0, 0x100, 7,
                                            5, sects, 0)
        for i in range(sects):
            seg += fixed("__sect%d" % i, 16) + fixed(name, 16)
            seg += struct.pack(end + 2 * w, 0x1000 + 16 * i, 16)
            seg += struct.pack(end + "IIIIIII", 0x100, 2, 0, 0, 0, 0, 0)
            if is64:
                seg += bytes(4)
        cmd(0x19 if is64 else 1, seg)
    if rng.chance(0.6):
        cmd(0x1b, rng.randbytes(16))
    if rng.chance(0.6):
        cmd(2, struct.pack(end + "IIII", 0x200, 3, 0x300, 40))
    if rng.chance(0.6):
        cmd(0xc, struct.pack(end + "IIII", 24, 2, 0x10000, 0x10000) + b"/usr/lib/libc.dylib\0")
    if rng.chance(0.4):
        cmd(0xe, struct.pack(end + "I", 12) + b"/usr/lib/dyld\0")
    if rng.chance(0.4):
        cmd(0x24, struct.pack(end + "II", 0x000a0600, 0x000a0600))
    if rng.chance(0.4):
        cmd(0xb, struct.pack(end + "18I", *range(18)))
    if rng.chance(0.3):
        cmd(0x1d, struct.pack(end + "II", 0x400, 16))
    magic = {("<", 0): b"\xce\xfa\xed\xfe", (">", 0): b"\xfe\xed\xfa\xce",
             ("<", 1): b"\xcf\xfa\xed\xfe", (">", 1): b"\xfe\xed\xfa\xcf"}[(end, int(is64))]
    head = magic + struct.pack(end + "iiIII", (7 | 0x01000000) if is64 else 7, 3,
                               rng.pick([1, 2, 6]), n, len(cmds)) + struct.pack(end + "I", 0x85)
    if is64:
        head += bytes(4)
    return head + cmds + rng.randbytes(rng.pick([0, 100, 700]))


def gen_macho(rng):
    return gen_macho_any(rng, False)


def gen_macho_fat(rng):
    return gen_macho_any(rng, True)


def gen_ntfs(rng):
    out = b"\xeb\x52\x90NTFS    "
    spc = rng.pick([1, 2, 8])
    out += struct.pack("<HB", 512, spc) + bytes(7) + b"\xf8" + bytes(2) + struct.pack(
        "<HHI", 63, 255, 63) + bytes(4)
    out += bytes([0x80, 0, 0x80, 0])
    mft = rng.randrange(1, 4)
    out += struct.pack("<QQQ", 10000, mft, 5000) + bytes([0xf6, 0, 0, 0, 1, 0, 0, 0])
    out += struct.pack("<QI", rng.getrandbits(64), 0) + bytes(426) + b"\x55\xaa"
    out = out.ljust(mft * spc * 512, b"\0")

    def attr(kind, data, ident, name=""):
        head = 24 + 2 * len(name)
        size = (head + len(data) + 7) // 8 * 8
        return (struct.pack("<IIBBHHHIHBB", kind, size, 0, len(name), 24, 0, ident, len(data),
                            head, 0, 0) + name.encode("utf-16-le") + data).ljust(size, b"\0")

    def nonresident(kind, ident):
        runs = b"\x21\x08" + struct.pack("<H", 100) + b"\x11\x02\xf0" + b"\0"
        size = (64 + len(runs) + 7) // 8 * 8
        return (struct.pack("<IIBBHHH", kind, size, 1, 0, 64, 0, ident)
                + struct.pack("<QQHHIQQQ", 0, 9, 64, 0, 0, 5120, 5000, 5000)
                + runs).ljust(size, b"\0")
    t = 128000000000000000
    for i in range(1000):
        attrs = b""
        if i < 20 and rng.chance(0.7):
            attrs += attr(0x10, struct.pack("<QQQQIIIIIIQQ", t, t, t, t, 0x20, 0, 0, 0, 0, 0, 0,
                                            0), 0)
            name = "file%d.txt" % i
            attrs += attr(0x30, struct.pack("<QQQQQQQIIBB", 5, t, t, t, t, 4096, 100, 0x20, 0,
                                            len(name), rng.pick([0, 1, 3]))
                          + name.encode("utf-16-le"), 1)
            if rng.chance(0.5):
                attrs += attr(0x80, blob(rng, 60), 2)
            if rng.chance(0.3):
                attrs += nonresident(0x80, 3)
            if rng.chance(0.3):
                attrs += attr(0xb0, rng.randbytes(8), 4)
            if rng.chance(0.3):
                attrs += attr(0x90, rng.randbytes(20), 5, "$I30")
        used = 56 + len(attrs) + 8
        alloc = 1024 if i < 20 else 64
        out += (b"FILE" + struct.pack("<HHQHHHHIIQHHI", 48, 2, 0, 1, 1, 56, 1, used, alloc, 0, 3,
                                      0, i) + struct.pack("<HHH", 1, 0, 0) + bytes(2) + attrs
                + b"\xff" * 4 + bytes(4)).ljust(alloc, b"\0")
    return out + blob(rng)


def gen_pifv(rng):
    def section(kind, data):
        return struct.pack("<I", 4 + len(data))[:3] + bytes([kind]) + data

    def file():
        body = b""
        for _ in range(rng.randrange(1, 4)):
            k = rng.randrange(5)
            if k == 0:
                s = section(0x15, "driver\0".encode("utf-16-le"))
            elif k == 1:
                s = section(0x14, struct.pack("<H", 3) + "1.0\0".encode("utf-16-le"))
            elif k == 2:
                s = section(0x19, rng.randbytes(21))
            elif k == 3:
                s = section(1, struct.pack("<IB", 100, 1) + rng.randbytes(30))
            else:
                s = section(0x18, rng.randbytes(16) + rng.randbytes(5))
            body += s
        n = 24 + len(body)
        return (rng.randbytes(16) + struct.pack("<HBB", 0xaa55, rng.pick([1, 2, 7]), 0)
                + struct.pack("<I", n)[:3] + b"\xf8" + body)
    body = b""
    for _ in range(rng.randrange(1, 4)):
        body += bytes(-len(body) % 8)
        body += file()
    head_len = 56 + 16
    n = head_len + len(body)
    return (bytes(16) + rng.randbytes(16) + struct.pack("<Q", n) + b"_FVH" + struct.pack(
        "<IHHHBB", 0xffff, head_len, 0, 0, 0, 1) + struct.pack("<IIII", 1, n, 0, 0) + body)


GENERATORS = {"mozilla_ar": gen_mozilla_ar, "mar": gen_mar, "keyring": gen_gnomekeyring,
              "dsstore": gen_dsstore, "pcf": gen_pcf, "hlp": gen_hlp, "3do": gen_3do,
              "mstask": gen_mstask, "zsnes": gen_zsnes, "blp1": gen_blp1, "blp2": gen_blp2,
              "psd": gen_psd, "gif": gen_gif, "tiff": gen_tiff, "real_audio": gen_real_audio,
              "mod": gen_mod, "spiderman": gen_spiderman, "avi": gen_avi,
              "wave": gen_wave_info, "ani": gen_ani, "cda": gen_cda, "au": gen_au,
              "aiff": gen_aiff, "midi": gen_midi, "torrent": gen_torrent,
              "iso9660": gen_iso9660, "macho": gen_macho, "macho_fat": gen_macho_fat,
              "ntfs": gen_ntfs, "pifv": gen_pifv}
GENERATED_ID = {"mozilla_ar": "mozilla_ar", "mar": "mar", "keyring": "gnomekeyring",
                "dsstore": "dsstore", "pcf": "pcf", "hlp": "hlp", "3do": "3do",
                "mstask": "mstask", "zsnes": "zsnes", "blp1": "blp1", "blp2": "blp2",
                "psd": "psd", "gif": "gif", "tiff": "tiff", "real_audio": "real_audio",
                "mod": "mod", "spiderman": "spiderman_video", "avi": "riff", "wave": "riff",
                "ani": "riff", "cda": "riff", "au": "sun_next_snd", "aiff": "aiff",
                "midi": "midi", "torrent": "torrent", "iso9660": "iso9660", "macho": "macho",
                "macho_fat": "macho_fat", "ntfs": "ntfs", "pifv": "pifv"}
