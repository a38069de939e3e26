"""Generated documents together with the facts which they record: size of the
image, duration, title... Every generator gives (content, facts); facts is a
list of [group, key, values], where group is None for the document itself, or
the number of one of its parts. The facts are derived from the specification
of the format, not from the code."""
import bz2
import datetime
import gzip
import io
import struct
import tarfile
import zipfile
import zlib

from simkit.gens import fixed, words

D = datetime.datetime


def be(fmt, *args):
    return struct.pack(">" + fmt, *args)


def le(fmt, *args):
    return struct.pack("<" + fmt, *args)


def text(rng, n=20):
    """Some text, which is not the beginning of another one"""
    return words(rng, rng.randrange(3, n)) + " %03d" % rng.randrange(1000)


def date(rng, first=1971, last=2029):
    return D(rng.randrange(first, last + 1), rng.randrange(1, 13), rng.randrange(1, 29),
             rng.randrange(24), rng.randrange(60), rng.randrange(60))


def secs(d, epoch):
    return int((d - D(epoch, 1, 1)).total_seconds())


class Facts(list):
    def add(self, key, *values, group=None):
        self.append([group, key, list(values)])


# ---------------------------------------------------------------- images

def chunk(tag, data):
    return be("I", len(data)) + tag + data + be("I", zlib.crc32(tag + data))


def png(rng):
    f = Facts()
    w, h = rng.randrange(1, 300), rng.randrange(1, 20)
    kind, depth = rng.pick([(0, 1), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4),
                            (3, 8), (4, 8), (6, 8), (6, 16)])
    nb = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[kind]
    row = (w * depth * nb + 7) // 8
    comp = zlib.compress(b"".join(b"\0" + rng.randbytes(row) for _ in range(h)))
    out = [b"\x89PNG\r\n\x1a\n", chunk(b"IHDR", be("IIBBBBB", w, h, depth, kind, 0, 0, 0))]
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", depth * nb)
    if kind == 3:
        n = rng.randrange(2, 1 + (1 << depth)) if depth > 1 else 2
        out.append(chunk(b"PLTE", rng.randbytes(3 * n)))
        f.add("nb_colors", n)
        f.add("pixel_format", "Color index")
    elif kind in (2, 6):
        f.add("pixel_format", "RGBA" if kind == 6 else "RGB")
    else:
        f.add("pixel_format", "Grayscale with alpha" if kind == 4 else "Grayscale")
    if rng.chance(0.4):
        d = date(rng)
        out.append(chunk(b"tIME", be("HBBBBB", d.year, d.month, d.day, d.hour, d.minute,
                                     d.second)))
        f.add("creation_date", d)
    if rng.chance(0.4):
        x, y = rng.pick([72, 96, 300]), rng.pick([72, 150])
        out.append(chunk(b"pHYs", be("IIB", round(x / 0.0254), round(y / 0.0254), 1)))
        f.add("width_dpi", x)
        f.add("height_dpi", y)
    comments = []
    if rng.chance(0.5):
        t = text(rng)
        out.append(chunk(b"tEXt", b"Comment\0" + t.encode()))
        comments.append(t)
    if rng.chance(0.3):
        t = text(rng)
        out.append(chunk(b"tEXt", b"Author\0" + t.encode()))
        comments.append("Author=" + t)
    if comments:
        f.add("comment", *comments)
    if rng.chance(0.3):
        t = text(rng)
        out.append(chunk(b"tEXt", b"Software\0" + t.encode()))
        f.add("producer", t)
    if rng.chance(0.1):
        # Another picture, in a private chunk
        out.append(chunk(b"prVt", b"\x89PNG\r\n\x1a\n" + chunk(
            b"IHDR", be("IIBBBBB", 1, 1, 8, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(
                b"\0\0")) + chunk(b"IEND", b"") + rng.randbytes(3)))
    out.append(chunk(b"IDAT", comp))
    out.append(chunk(b"IEND", b""))
    return b"".join(out), f


def bmp(rng):
    f = Facts()
    w, h = rng.randrange(1, 60), rng.randrange(1, 30)
    bpp = rng.pick([1, 4, 8, 24, 32])
    row = (w * bpp + 31) // 32 * 4
    pix = rng.randbytes(row * h)
    n = 1 << bpp if bpp <= 8 else 0
    x, y = rng.pick([72, 96, 300]), rng.pick([72, 96, 300])
    if bpp < 32 and rng.chance(0.15):
        # OS/2: version 2 of the header
        f.add("width", w)
        f.add("height", h)
        f.add("bits_per_pixel", bpp)
        off = 26 + 3 * n
        return b"BM" + le("IHHI", off + len(pix), 0, 0, off) + le(
            "IHHHH", 12, w, h, 1, bpp) + rng.randbytes(3 * n) + pix, f
    off = 54 + 4 * n
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", bpp)
    f.add("compression", "Uncompressed")
    f.add("width_dpi", x)
    f.add("height_dpi", y)
    if n:
        f.add("nb_colors", n)
    data = (b"BM" + le("IHHI", off + len(pix), 0, 0, off) + le(
        "IiiHHIIiiII", 40, w, h * rng.pick([1, 1, 1, -1]), 1, bpp, 0, len(pix), round(x / 0.0254), round(y / 0.0254),
        n, 0) + b"".join(rng.randbytes(3) + b"\0" for _ in range(n)) + pix)
    return data, f


def pcx(rng):
    f = Facts()
    w, h = rng.randrange(1, 80), rng.randrange(1, 20)
    bits, planes = rng.pick([(1, 1), (8, 1), (8, 3), (1, 4)])
    line = (w * bits + 15) // 16 * 2
    x, y = rng.pick([72, 300]), rng.pick([72, 150])
    x0, y0 = rng.pick([(0, 0), (0, 0), (5, 3)])
    body = bytes([0xc1, 0x55]) * (line * planes * h)
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", bits * planes)
    f.add("width_dpi", x)
    f.add("height_dpi", y)
    data = bytes([10, 5, 1, bits]) + le("6H", x0, y0, x0 + w - 1, y0 + h - 1, x, y)
    data += rng.randbytes(48) + bytes([0, planes]) + le("HHHH", line, 1, 0, 0)
    data = data.ljust(128, b"\0") + body
    if bits == 8 and planes == 1:
        data += b"\x0c" + rng.randbytes(768)
    return data, f


def tga(rng):
    f = Facts()
    w, h = rng.randrange(1, 60), rng.randrange(1, 30)
    kind, bpp = rng.pick([(1, 8), (2, 24), (2, 32), (3, 8)])
    n = rng.randrange(2, 257) if kind == 1 else 0
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", bpp)
    if n:
        f.add("nb_colors", n)
    ident = rng.pick([b"", b"", b"name"])
    return (bytes([len(ident), int(kind == 1), kind]) + le("HHB", 0, n, 24 if n else 0)
            + le("HHHHBB", 0, 0, w, h, bpp, 0x20) + ident + rng.randbytes(3 * n)
            + rng.randbytes(w * h * bpp // 8)), f


def ico(rng):
    f = Facts()
    n = rng.randrange(1, 4)
    heads = body = b""
    pos = 6 + 16 * n
    for i in range(n):
        w, h = rng.pick([16, 32, 48]), rng.pick([16, 32])
        bpp = rng.pick([1, 4, 8, 24, 32])
        colors = 1 << bpp if bpp <= 8 else 0
        row = (w * bpp + 31) // 32 * 4
        mask = (w + 31) // 32 * 4
        img = le("IiiHHIIiiII", 40, w, 2 * h, 1, bpp, 0, (row + mask) * h, 0, 0, 0, 0)
        img += rng.randbytes(4 * colors + (row + mask) * h)
        heads += bytes([w, h, colors & 255, 0]) + le("HHII", 1, bpp, len(img), pos)
        pos += len(img)
        body += img
        f.add("width", w, group=i)
        f.add("height", h, group=i)
        f.add("bits_per_pixel", bpp, group=i)
        if bpp < 8:
            f.add("nb_colors", colors, group=i)
    return le("HHH", 0, 1, n) + heads + body, f


def gif(rng):
    f = Facts()
    w, h = rng.randrange(1, 500), rng.randrange(1, 500)
    bits = rng.randrange(1, 9)
    version = rng.pick([b"87a", b"89a"])
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", bits)
    f.add("nb_colors", 1 << bits)
    f.add("compression", "LZW")
    f.add("format_version", "GIF version " + version.decode())
    out = b"GIF" + version + le("HHBBB", w, h, 0x80 | (bits - 1) << 4 | (bits - 1), 0, 0)
    out += rng.randbytes(3 << bits)
    transp = False
    if version == b"89a":
        if rng.chance(0.5):
            t = text(rng)
            out += b"\x21\xfe" + bytes([len(t)]) + t.encode() + b"\0"
            f.add("comment", t)
        if rng.chance(0.2):
            # Extension of an application, which contains an end
            out += b"\x21\xff\x0bNETSCAPE2.0\x03\x01\0;\0"
        if rng.chance(0.5):
            transp = rng.chance(0.5)
            out += b"\x21\xf9\x04" + bytes([int(transp), 1, 0, 0, 0])
    f.add("pixel_format", "Color index with transparency" if transp else "Color index")
    # one image: clear code, one pixel, end code
    out += b"\x2c" + le("HHHHB", 0, 0, 1, 1, 0) + b"\x02\x02\x44\x01\x00;"
    return out, f


def ifd(rng, endian, tags, base=8):
    """IFD with its values; tags: [(tag, type, value)]"""
    E = endian
    tags = sorted(tags)
    pos = base + 2 + 12 * len(tags) + 4
    head, extra = struct.pack(E + "H", len(tags)), b""
    for tag, kind, value in tags:
        if kind == 2:
            raw = value.encode("latin-1") + b"\0"
            n = len(raw)
        elif kind in (1, 7):
            raw = bytes(value)
            n = len(raw)
        else:
            value = value if isinstance(value, list) else [value]
            n = len(value)
            if kind in (5, 10):
                raw = b"".join(struct.pack(E + ("II" if kind == 5 else "ii"), *v)
                               for v in value)
            else:
                raw = struct.pack(E + "%d%s" % (n, {3: "H", 4: "I"}[kind]), *value)
        head += struct.pack(E + "HHI", tag, kind, n)
        if len(raw) <= 4:
            head += raw.ljust(4, b"\0")
        else:
            head += struct.pack(E + "I", pos + len(extra))
            extra += raw + bytes(len(raw) % 2)
    return head, extra


def exif_date(d):
    return d.strftime("%Y:%m:%d %H:%M:%S")


def tiff(rng):
    f = Facts()
    E = rng.pick("<>")
    w, h = rng.randrange(1, 60), rng.randrange(1, 20)
    spp = rng.pick([1, 3])
    tags = [(256, rng.pick([3, 4]), w), (257, rng.pick([3, 4]), h), (258, 3, [8] * spp),
            (259, 3, 1), (262, 3, 2 if spp == 3 else 1), (277, 3, spp), (278, 3, h),
            (279, 4, w * h * spp)]
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", 8 * spp)
    for tag, key in ((305, "producer"), (270, "comment"), (269, "title")):
        if rng.chance(0.5):
            t = text(rng)
            tags.append((tag, 2, t))
            f.add(key, t)
    if rng.chance(0.5):
        x, y = rng.pick([72, 300]), rng.pick([72, 150])
        tags += [(282, 5, [(x, 1)]), (283, 5, [(2 * y, 2)]), (296, 3, 2)]
        f.add("width_dpi", x)
        f.add("height_dpi", y)
    if rng.chance(0.5):
        d = date(rng)
        tags.append((306, 2, exif_date(d)))
        f.add("creation_date", d)
    head, extra = ifd(rng, E, tags + [(273, 4, 0)])
    pos = 8 + len(head) + 4 + len(extra)
    head, extra = ifd(rng, E, tags + [(273, 4, pos)])
    return ((b"II*\0" if E == "<" else b"MM\0*") + struct.pack(E + "I", 8) + head + bytes(4)
            + extra + rng.randbytes(w * h * spp)), f


def psd(rng):
    f = Facts()
    w, h = rng.randrange(1, 30), rng.randrange(1, 30)
    mode, nb, name = rng.pick([(1, 1, "Grayscale"), (3, 3, "RGB color"), (3, 4, "RGB color"),
                               (4, 4, "CMYK color"), (9, 3, "Lab Color")])
    depth = rng.pick([8, 16])
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", depth * nb)
    f.add("pixel_format", name)
    return (b"8BPS" + be("H", 1) + bytes(6) + be("HIIHH", nb, h, w, depth, mode)
            + be("III", 0, 0, 0) + be("H", 0) + rng.randbytes(w * h * nb * depth // 8)), f


def jpeg(rng):
    f = Facts()

    def seg(tag, data):
        return b"\xff" + bytes([tag]) + be("H", 2 + len(data)) + data
    w, h = rng.randrange(1, 4000), rng.randrange(1, 4000)
    nb = rng.pick([1, 3, 3])
    out = b"\xff\xd8"
    unit = rng.pick([0, 1, 1, 2])
    x, y = rng.pick([72, 300]), rng.pick([72, 150])
    exif = rng.chance(0.6)
    if not exif or rng.chance(0.3):
        out += seg(0xe0, b"JFIF\0" + be("HBHHBB", 0x0102, unit, *(
            (1, 1) if not unit else (x, y)), 0, 0))
        f.add("format_version", "JFIF 1.02")
        if unit == 1:
            f.add("width_dpi", x)
            f.add("height_dpi", y)
        elif unit == 0:
            f.add("width_dpi")
            f.add("height_dpi")
        else:
            f.add("width_dpi", round(x * 2.54))
            f.add("height_dpi", round(y * 2.54))
    if exif:
        E = rng.pick("<>")
        tags = []
        for tag, key in ((271, "camera_manufacturer"), (272, "camera_model"), (270, "title"),
                         (305, "producer")):
            if rng.chance(0.5):
                t = text(rng)
                tags.append((tag, 2, t))
                f.add(key, t)
        if rng.chance(0.5):
            o = rng.randrange(1, 9)
            tags.append((274, 3, o))
            f.add("image_orientation", [
                "Horizontal (normal)", "Mirrored horizontal", "Rotated 180", "Mirrored vertical",
                "Mirrored horizontal then rotated 90 counter-clock-wise", "Rotated 90 clock-wise",
                "Mirrored horizontal then rotated 90 clock-wise",
                "Rotated 90 counter clock-wise"][o - 1])
        dates = []
        if rng.chance(0.5):
            d = date(rng)
            tags.append((306, 2, exif_date(d)))
            dates.append(d)
        sub = [(36864, 7, b"0220")]
        if rng.chance(0.5):
            d = date(rng)
            sub.append((36867, 2, exif_date(d)))
            f.add("date_time_original", d)
        if rng.chance(0.5):
            d = date(rng)
            sub.append((36868, 2, exif_date(d)))
            f.add("date_time_digitized", d)
        if rng.chance(0.5):
            iso = rng.pick([100, 200, 3200])
            sub.append((34855, 3, iso))
            f.add("iso_speed_ratings", iso)
        if rng.chance(0.5):
            sub.append((37386, 5, [(85, 10)]))
            f.add("focal_length", 8.5)
        gps = None
        if rng.chance(0.5):
            def angle(n):
                if rng.chance(0.3):
                    # Fraction of a minute, no seconds
                    return (rng.randrange(n), (rng.randrange(6000), 100), 0)
                if rng.chance(0.3):
                    return (rng.randrange(n), rng.randrange(60), (rng.randrange(60000), 1000))
                return (rng.randrange(n), rng.randrange(60), rng.randrange(60))

            def ratio(v):
                return v if isinstance(v, tuple) else (v, 1)

            def degrees(v):
                a, b, c = [x / y for x, y in map(ratio, v)]
                return a + b / 60 + c / 3600
            lat, lon = angle(90), angle(180)
            ns, ew = rng.pick("NS"), rng.pick("EW")
            gps = [(1, 2, ns), (2, 5, [ratio(v) for v in lat]), (3, 2, ew),
                   (4, 5, [ratio(v) for v in lon])]
            f.add("latitude", degrees(lat) * (1 if ns == "N" else -1))
            f.add("longitude", degrees(lon) * (1 if ew == "E" else -1))
            if rng.chance(0.5):
                alt, below = rng.randrange(1, 4000), rng.randrange(2)
                gps += [(5, 1, [below]), (6, 5, [(alt, 1)])]
                f.add("altitude", float(-alt if below else alt))
            if rng.chance(0.5):
                d = date(rng)
                gps += [(7, 5, [(d.hour, 1), (d.minute, 1), (d.second, 1)]),
                        (29, 2, d.strftime("%Y:%m:%d"))]
                dates.append(d)
        f.add("creation_date", *dates)

        def build(a, b):
            t = tags + [(34665, 4, a)] + ([(34853, 4, b)] if gps else [])
            head, extra = ifd(rng, E, t)
            first = head + bytes(4) + extra
            head, extra = ifd(rng, E, sub, 8 + len(first))
            second = head + bytes(4) + extra
            third = b""
            if gps:
                head, extra = ifd(rng, E, gps, 8 + len(first) + len(second))
                third = head + bytes(4) + extra
            return first, second, third
        first, second, third = build(0, 0)
        parts = build(8 + len(first), 8 + len(first) + len(second))
        out += seg(0xe1, b"Exif\0\0" + (b"II*\0" if E == "<" else b"MM\0*")
                   + struct.pack(E + "I", 8) + b"".join(parts))
    comments = []
    for _ in range(rng.pick([0, 1, 2])):
        t = text(rng)
        out += seg(0xfe, t.encode())
        comments.append(t)
    if comments:
        f.add("comment", *comments)
    sof = rng.pick([0xc0, 0xc2])
    out += seg(sof, be("BHHB", 8, h, w, nb) + b"".join(
        bytes([i + 1, 0x11, 0]) for i in range(nb)))
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", 8 * nb)
    f.add("compression", "JPEG (%s)" % {0xc0: "Baseline", 0xc2: "Progressive"}[sof])
    f.add("pixel_format", "YCbCr" if nb == 3 else "Grayscale")
    for i in range(rng.pick([1, 1, 1, 2, 3])):
        if i:
            # Between two scans
            out += seg(rng.pick([0xe9, 0xeb]), rng.randbytes(4) + b"\xff\xd9" + rng.randbytes(4))
        out += seg(0xda, bytes([nb]) + b"".join(bytes([i + 1, 0]) for i in range(nb)) + b"\0\x3f\0")
        out += (rng.randbytes(50) + rng.pick([b"", b"\xff"])).replace(b"\xff", b"\xff\0")
    return out + b"\xff\xd9", f


# ----------------------------------------------------------------- audio

def riff(kind, chunks):
    body = b"".join(t + le("I", len(d)) + d + bytes(len(d) % 2) for t, d in chunks)
    return b"RIFF" + le("I", 4 + len(body)) + kind + body


def info(rng, f, tags):
    out = b"INFO"
    for tag, key in tags:
        if rng.chance(0.5):
            t = text(rng)
            f.add(key, t)
            t = t.encode() + b"\0"
            out += tag + le("I", len(t)) + t + bytes(len(t) % 2)
    return out


INFO = [(b"INAM", "title"), (b"IART", "artist"), (b"ICMT", "comment"), (b"ICOP", "copyright"),
        (b"IENG", "author"), (b"ISFT", "producer")]


def wav(rng):
    f = Facts()
    nb, bits = rng.pick([1, 2, 6]), rng.pick([8, 16, 24])
    rate = rng.pick([8000, 22050, 44100, 48000])
    align = nb * bits // 8
    n = rng.randrange(rate // 100, rate // 20)
    f.add("nb_channel", nb)
    f.add("bits_per_sample", bits)
    f.add("sample_rate", rate)
    f.add("bit_rate", nb * bits * rate)
    f.add("duration", datetime.timedelta(seconds=n / rate))
    chunks = [(b"fmt ", le("HHIIHH", 1, nb, rate, rate * align, align, bits))]
    if rng.chance(0.4):
        chunks.append((b"LIST", info(rng, f, INFO)))
    chunks.append((b"data", bytes(n * align)))
    return riff(b"WAVE", chunks), f


def au(rng):
    f = Facts()
    codec, bits = rng.pick([(1, 8), (2, 8), (3, 16), (5, 32)])
    nb, rate = rng.pick([1, 2]), rng.pick([8000, 44100])
    n = rng.randrange(rate // 100, rate // 10)
    f.add("nb_channel", nb)
    f.add("sample_rate", rate)
    f.add("bits_per_sample", bits)
    f.add("duration", datetime.timedelta(seconds=n / rate))
    note = b""
    if rng.chance(0.5):
        t = text(rng)
        note = fixed(t, (len(t) + 8) // 8 * 8)
        f.add("comment", t)
    size = n * nb * bits // 8
    return b".snd" + be("IIIII", 24 + len(note), size, codec, rate, nb) + note + bytes(size), f


def aiff(rng):
    f = Facts()
    nb, bits = rng.pick([1, 2]), rng.pick([8, 16])
    rate = rng.pick([8000, 44100, 22050])
    n = rng.randrange(rate // 100, rate // 10)
    f.add("nb_channel", nb)
    f.add("bits_per_sample", bits)
    f.add("sample_rate", rate)
    f.add("duration", datetime.timedelta(seconds=n / rate))
    e = rate.bit_length() - 1
    ext = be("HQ", 16383 + e, rate << (63 - e))
    comp = rng.chance(0.5)
    comm = be("hIh", nb, n, bits) + ext
    if comp:
        comm += b"NONE" + b"\x0enot compressed\0"
    ssnd = be("II", 0, 0) + bytes(n * nb * bits // 8)
    body = b""
    if comp:
        body += b"FVER" + be("II", 4, 0xA2805140)
    for tag, data in ((b"COMM", comm), (b"SSND", ssnd)):
        body += tag + be("I", len(data)) + data + bytes(len(data) % 2)
    return b"FORM" + be("I", 4 + len(body)) + (b"AIFC" if comp else b"AIFF") + body, f


VORBIS = [("ARTIST", "artist"), ("ALBUM", "album"), ("TITLE", "title"), ("GENRE", "music_genre"),
          ("COMMENT", "comment"), ("LICENSE", "copyright"), ("COMPOSER", "music_composer"),
          ("ORGANIZATION", "organization"), ("LOCATION", "location")]


def vorbis_comment(rng, f):
    vendor = text(rng)
    items = []
    f.add("producer", vendor)
    for name, key in VORBIS:
        if rng.chance(0.4):
            t = text(rng) + rng.pick(["", "", " \u00e9t\u00e9", " a=b"])
            items.append(rng.pick([name, name.lower()]) + "=" + t)
            f.add(key, t)
    if rng.chance(0.4):
        n = rng.randrange(1, 99)
        items.append("TRACKNUMBER=%02d" % n)
        f.add("track_number", n)
    if rng.chance(0.4):
        d = date(rng)
        items.append("DATE=" + d.strftime("%Y-%m-%d"))
        f.add("creation_date", d.date())

    def string(s):
        s = s.encode("utf-8")
        return le("I", len(s)) + s
    return string(vendor) + le("I", len(items)) + b"".join(map(string, items))


def flac(rng):
    f = Facts()
    nb, bits, rate = rng.pick([1, 2, 6]), rng.pick([8, 16, 24]), rng.pick([8000, 44100, 96000])
    n = rng.randrange(1, 200) * rate // 2
    f.add("nb_channel", nb)
    f.add("bits_per_sample", bits)
    f.add("sample_rate", rate)
    f.add("duration", datetime.timedelta(seconds=n / rate))
    v = rate << 44 | (nb - 1) << 41 | (bits - 1) << 36 | n
    blocks = [(0, be("HH", 4096, 4096) + bytes(6) + v.to_bytes(8, "big") + rng.randbytes(16))]
    if rng.chance(0.3):
        blocks.append((1, bytes(rng.pick([1, 16]))))
    if rng.chance(0.6):
        blocks.append((4, vorbis_comment(rng, f)))
    if rng.chance(0.3):
        blocks.append((3, be("QQH", 0, 0, 4096) * 2))
    out = b"fLaC"
    for i, (kind, data) in enumerate(blocks):
        out += bytes([kind | (0x80 if i == len(blocks) - 1 else 0)]) + be("I", len(data))[1:] + data
    return out, f


def ogg_crc(data):
    crc = 0
    for b in data:
        crc ^= b << 24
        for _ in range(8):
            crc = (crc << 1) ^ 0x04c11db7 if crc & 0x80000000 else crc << 1
        crc &= 0xffffffff
    return crc


def ogg_page(flags, granule, serial, no, packets):
    lacing = b""
    for p in packets:
        lacing += b"\xff" * (len(p) // 255) + bytes([len(p) % 255])
    head = b"OggS" + le("BBqIII", 0, flags, granule, serial, no, 0) + bytes([len(lacing)]) + lacing
    data = head + b"".join(packets)
    return data[:22] + le("I", ogg_crc(data)) + data[26:]


def ogg(rng):
    f = Facts()
    nb, rate, br = rng.pick([1, 2]), rng.pick([22050, 44100]), rng.pick([64000, 128000])
    n = rng.randrange(1, 500) * rate // 4
    f.add("duration", datetime.timedelta(seconds=n / rate))
    f.add("nb_channel", nb, group=0)
    f.add("sample_rate", rate, group=0)
    f.add("bit_rate", br, group=0)
    f.add("compression", "Vorbis", group=0)
    serial = rng.randrange(1, 1 << 30)
    ident = b"\x01vorbis" + le("IBIiiiBB", 0, nb, rate, 0, br, 0, 0xb8, 1)
    comment = b"\x03vorbis" + vorbis_comment(rng, f) + b"\x01"
    setup = b"\x05vorbis" + rng.randbytes(rng.pick([30, 300]))
    out = ogg_page(2, 0, serial, 0, [ident]) + ogg_page(0, 0, serial, 1, [comment, setup])
    pages = rng.randrange(1, 4)
    for i in range(pages):
        out += ogg_page(4 if i == pages - 1 else 0, n * (i + 1) // pages, serial, 2 + i,
                        [rng.randbytes(rng.randrange(1, 400)) for _ in range(rng.randrange(1, 4))])
    return out, f


def synchsafe(n):
    return bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127])


def mp3(rng):
    f = Facts()
    out = b""
    v = rng.pick([None, 2, 3, 4])
    if v:
        frames = b""
        names = {2: [("TP1", "author"), ("TAL", "album"), ("TT2", "title"), ("TEN", "producer")],
                 }.get(v, [("TPE1", "author"), ("TALB", "album"), ("TIT2", "title"),
                           ("TENC", "producer"), ("TCOP", "copyright")])
        items = []
        for tag, key in names:
            if rng.chance(0.6):
                t = text(rng)
                items.append((tag, t))
                f.add(key, t)
        if rng.chance(0.5):
            n = rng.randrange(1, 30)
            total = rng.pick([0, 30])
            items.append(("TRK" if v == 2 else "TRCK", "%d/%d" % (n, total) if total else str(n)))
            f.add("track_number", n)
            if total:
                f.add("track_total", total)
        if rng.chance(0.5):
            y = rng.randrange(1950, 2020)
            items.append(("TYE" if v == 2 else "TYER", str(y)))
            f.add("creation_date", datetime.date(y, 1, 1))
        for tag, t in items:
            charset = rng.pick([0, 1] if v < 4 else [0, 1, 3])
            if charset == 1 and rng.chance(0.5):
                pass
            raw = bytes([charset]) + {0: t.encode("latin-1"),
                                      1: b"\xff\xfe" + t.encode("utf-16-le"),
                                      3: t.encode("utf-8")}[charset]
            if v == 2:
                frames += tag.encode() + be("I", len(raw))[1:] + raw
            elif v == 3:
                frames += tag.encode() + be("IH", len(raw), 0) + raw
            else:
                frames += tag.encode() + synchsafe(len(raw)) + b"\0\0" + raw
        frames += bytes(rng.pick([0, 10, 100]))
        out += b"ID3" + bytes([v, 0, 0]) + synchsafe(len(frames)) + frames
    index = rng.randrange(1, 15)
    rate_index = rng.randrange(3)
    mode = rng.randrange(4)
    br = [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320][index - 1] * 1000
    rate = [44100, 48000, 32000][rate_index]
    size = 144 * br // rate
    n = rng.randrange(5, 12)
    frame = bytes([0xff, 0xfb, index << 4 | rate_index << 2, mode << 6])
    frame += bytes(size - 4)
    out += frame * n
    f.add("bit_rate", br)
    f.add("sample_rate", rate)
    f.add("nb_channel", 1 if mode == 3 else 2)
    f.add("format_version", "MPEG version 1 layer III")
    f.add("duration", datetime.timedelta(seconds=n * size * 8 / br))
    if not v and rng.chance(0.6):
        title, author, album = text(rng), text(rng), text(rng)
        y = rng.randrange(1950, 2020)
        out += (b"TAG" + fixed(title, 30) + fixed(author, 30) + fixed(album, 30)
                + str(y).encode() + fixed("", 28) + b"\0" + bytes([7, 17]))
        f.add("title", title)
        f.add("author", author)
        f.add("album", album)
        f.add("track_number", 7)
        f.add("creation_date", datetime.date(y, 1, 1))
    return out, f


# ----------------------------------------------------------------- video

def avi(rng):
    f = Facts()
    w, h = rng.randrange(16, 800), rng.randrange(16, 600)
    scale, fps = rng.pick([(1, 10), (1, 25), (1, 30), (1001, 30000), (2, 25), (40000, 1000000)])
    n = rng.randrange(1, 500)
    dur = datetime.timedelta(seconds=n * scale / fps)
    audio = rng.chance(0.6)
    f.add("width", w)
    f.add("height", h)
    f.add("duration", dur)
    f.add("width", w, group=0)
    f.add("height", h, group=0)
    f.add("bits_per_pixel", 24, group=0)
    f.add("frame_rate", fps / scale, group=0)
    f.add("duration", dur, group=0)

    def ck(tag, data):
        return tag + le("I", len(data)) + data + bytes(len(data) % 2)

    def lst(kind, data):
        return ck(b"LIST", kind + data)
    avih = le("10I", 1000000 * scale // fps, 0, 0, 0x10, n, 0, 1 + audio, 0, w, h) + bytes(16)
    strh = b"vidsDIVX" + le("IHHIIIIIIIIHHHH", 0, 0, 0, 0, scale, fps, 0, n, 0, 0, 0, 0, 0, w, h)
    strf = le("IiiHH4sIiiII", 40, w, h, 1, 24, b"DIVX", w * h * 3, 0, 0, 0, 0)
    hdrl = ck(b"avih", avih) + lst(b"strl", ck(b"strh", strh) + ck(b"strf", strf))
    if audio:
        nb, rate, bits = rng.pick([1, 2]), rng.pick([22050, 44100]), 16
        align = nb * bits // 8
        div = rng.pick([1, 2, 100])
        count = rate * n * scale // fps // div
        strh = b"auds" + le("IIHHIIIIIIIIHHHH", 0, 0, 0, 0, 0, div, rate, 0, count, 0, 0, 0,
                            0, 0, 0, 0)
        strf = le("HHIIHH", 1, nb, rate, rate * align, align, bits)
        hdrl += lst(b"strl", ck(b"strh", strh) + ck(b"strf", strf))
        f.add("nb_channel", nb, group=1)
        f.add("sample_rate", rate, group=1)
        f.add("bits_per_sample", bits, group=1)
        f.add("bit_rate", rate * align * 8, group=1)
        f.add("duration", datetime.timedelta(seconds=count * div / rate), group=1)
    chunks = [(b"LIST", b"hdrl" + hdrl)]
    if rng.chance(0.5):
        chunks.append((b"LIST", info(rng, f, INFO)))
    chunks.append((b"LIST", b"movi" + ck(b"00dc", rng.randbytes(40))))
    return riff(b"AVI ", chunks), f


def mp4(rng):
    from simkit.gens2 import MATRIX, box, full
    f = Facts()
    w, h = rng.randrange(16, 800), rng.randrange(16, 600)
    a, b = date(rng), date(rng)
    scale = rng.pick([600, 1000, 90000])
    n = rng.randrange(1, 10000) * scale // 10
    v = rng.randrange(2)
    q = "Q" if v else "I"
    t0, t1 = secs(a, 1904), secs(b, 1904)
    f.add("creation_date", a)
    f.add("last_modification", b)
    f.add("duration", datetime.timedelta(seconds=n / scale))
    f.add("width", w)
    f.add("height", h)
    mvhd = full("mvhd", v, 0, be(q + q + "I" + q + "IH", t0, t1, scale, n, 0x10000, 0x100)
                + bytes(10) + MATRIX + be("7I", 0, 0, 0, 0, 0, 0, 3))

    def trak(i, w, h):
        tkhd = full("tkhd", v, 15, be(q + q + "II" + q, t0, t1, i, 0, n) + bytes(8) + be(
            "hhHH", 0, 0, 0x100, 0) + MATRIX + be("II", w << 16, h << 16))
        return box("trak", tkhd)
    traks = [trak(1, w, h), trak(2, 0, 0)]
    if rng.chance(0.5):
        traks.reverse()
    moov = box("moov", mvhd + b"".join(traks))
    out = [box("ftyp", b"mp42" + be("I", 0) + b"mp42isom"), moov, box("mdat", rng.randbytes(30))]
    if rng.chance(0.3):
        out[1], out[2] = out[2], out[1]
    return b"".join(out), f


def ebml(tag, data, wide=0):
    """wide: number of bytes of the size (0: one if it is possible, or 8)"""
    tag = bytes.fromhex(tag)
    n = len(data)
    wide = wide or (1 if n < 127 else 8)
    return tag + (1 << 7 * wide | n).to_bytes(wide, "big") + data


def uint(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")


def mkv(rng):
    f = Facts()
    w, h = rng.randrange(16, 4000), rng.randrange(16, 3000)
    d = date(rng, 2002)
    dur = rng.randrange(1, 100000)
    title, app, lib = text(rng) + rng.pick(["", " \u00e9"]), text(rng), text(rng)
    scale = rng.pick([None, 1000000, 1000000, 500000, 10000, 1000000000])
    f.add("duration", datetime.timedelta(seconds=dur * (scale or 1000000) / 1e9))
    f.add("creation_date", d)
    f.add("title", title)
    f.add("producer", app, lib)
    head = ebml("1a45dfa3", ebml("4286", b"\1") + ebml("42f7", b"\1") + ebml("42f2", b"\4")
                + ebml("42f3", b"\10") + ebml("4282", b"matroska") + ebml("4287", b"\2")
                + ebml("4285", b"\2"))
    inf = [ebml("2ad7b1", uint(scale)) if scale else b"",
           ebml("4489", rng.pick([be("f", dur), be("d", dur)])),
           ebml("4461", be("q", secs(d, 2001) * 1000000000)),
           ebml("7ba9", title.encode()), ebml("5741", app.encode()), ebml("4d80", lib.encode())]
    body = ebml("1549a966", b"".join(inf), rng.pick([0, 0, 4, 8]))
    lang = rng.pick(["fre", None, "ger"])

    def track(i, kind, codec, extra, group):
        data = ebml("d7", uint(i)) + ebml("73c5", uint(i)) + ebml("83", uint(kind)) + ebml(
            "86", codec.encode())
        f.add("compression", codec, group=group)
        if rng.chance(0.5):
            t = text(rng)
            data += ebml("536e", t.encode())
            f.add("title", t, group=group)
        if lang:
            data += ebml("22b59c", lang.encode())
        return ebml("ae", data + extra)
    tracks = track(1, 1, "V_MPEG4/ISO/AVC", ebml("e0", ebml("b0", uint(w)) + ebml(
        "ba", uint(h))), 0)
    f.add("width", w, group=0)
    f.add("height", h, group=0)
    nb, rate = rng.pick([1, 2, 6]), rng.pick([22050, 44100, 48000])
    audio = ebml("b5", be("f", rate)) + ebml("9f", uint(nb))
    if rng.chance(0.5):
        audio += ebml("6264", uint(16))
        f.add("bits_per_sample", 16, group=1)
    f.add("nb_channel", nb, group=1)
    f.add("sample_rate", float(rate), group=1)
    tracks += track(2, 2, "A_AAC", ebml("e1", audio), 1)
    if rng.chance(0.5):
        tracks += track(3, 17, "S_TEXT/UTF8", b"", 2)
    body += ebml("1654ae6b", tracks)
    if rng.chance(0.5):
        url, copy = text(rng), text(rng)
        body += ebml("1254c367", ebml("7373", b"".join(
            ebml("67c8", ebml("45a3", k.encode()) + ebml("4487", v.encode()))
            for k, v in (("URL", url), ("COPYRIGHT", copy)))))
        f.add("url", url)
        f.add("copyright", copy)
    body += ebml("1f43b675", ebml("e7", b"\0") + ebml("a3", b"\x81\0\0\x80" + rng.randbytes(20)))
    return head + ebml("18538067", body, rng.pick([8, 8, 2, 3, 4, 5])), f


def flv(rng):
    f = Facts()
    w, h, fps = rng.randrange(16, 800), rng.randrange(16, 600), rng.pick([10, 25, 30])
    dur = rng.randrange(1, 5000) / 8
    f.add("width", w)
    f.add("height", h)
    f.add("duration", datetime.timedelta(seconds=dur))
    f.add("frame_rate", float(fps))

    def string(s):
        return be("H", len(s)) + s.encode()
    values = [("duration", dur), ("width", w), ("height", h), ("framerate", fps)]
    items = b"".join(string(k) + b"\0" + be("d", v) for k, v in values)
    if rng.chance(0.5):
        t = text(rng)
        items += string("creator") + b"\2" + string(t)
        f.add("producer", t)
    # The length of the array is an approximation
    count = rng.pick([len(values), len(values), 0, 100])
    meta = b"\2" + string("onMetaData") + b"\x08" + be("I", count) + items + b"\0\0\x09"
    out = b"FLV\1\5" + be("II", 9, 0)

    def tag(kind, data, t):
        return bytes([kind]) + be("I", len(data))[1:] + be("I", t)[1:] + b"\0\0\0\0" + data + be(
            "I", 11 + len(data))
    out += tag(18, meta, 0)
    rate, bits, st = rng.pick([(1, 11025), (2, 22050), (3, 44100)]), rng.randrange(2), rng.randrange(2)
    video = tag(9, b"\x22" + rng.randbytes(30), 0)
    audio = tag(8, bytes([0x10 | rate[0] << 2 | bits << 1 | st]) + rng.randbytes(20), 0)
    out += video + audio + video
    f.add("sample_rate", rate[1], group=1)
    f.add("bits_per_sample", 16 if bits else 8, group=1)
    f.add("nb_channel", 2 if st else 1, group=1)
    f.add("compression", "Sorensen H.263", group=0)
    return out, f


def guid(s):
    a, b, c, d, e = s.split("-")
    return (bytes.fromhex(a)[::-1] + bytes.fromhex(b)[::-1] + bytes.fromhex(c)[::-1]
            + bytes.fromhex(d) + bytes.fromhex(e))


def asf(rng):
    f = Facts()

    def obj(g, data):
        return guid(g) + le("Q", 24 + len(data)) + data

    def utf(s):
        return (s + "\0").encode("utf-16-le")
    d = date(rng)
    dur, preroll = rng.randrange(1, 100000), rng.pick([0, 3000])
    br = rng.randrange(10000, 1000000)
    f.add("creation_date", d)
    f.add("duration", datetime.timedelta(milliseconds=dur))
    f.add("bit_rate", br)
    prop = obj("8CABDCA1-A947-11CF-8EE4-00C00C205365", rng.randbytes(16) + le(
        "QQQQQQIIII", 1000, secs(d, 1601) * 10000000, 1, (dur + preroll) * 10000, dur * 10000,
        preroll, 2, 100, 100, br))
    title, author, copy = text(rng), text(rng), text(rng)
    f.add("title", title)
    f.add("author", author)
    f.add("copyright", copy)
    parts = [utf(title), utf(author), utf(copy), utf(""), utf("")]
    desc = obj("75B22633-668E-11CF-A6D9-00AA0062CE6C", le("5H", *map(len, parts)) + b"".join(parts))
    objs = [prop, desc]
    if rng.chance(0.6):
        items = []
        for name, key in (("WM/AlbumTitle", "album"), ("WM/ToolName", "producer")):
            if rng.chance(0.6):
                t = text(rng)
                items.append((name, t))
                f.add(key, t)
        if rng.chance(0.5):
            n = rng.randrange(1, 99)
            items.append(("WM/TrackNumber", str(n)))
            f.add("track_number", n)
        data = le("H", len(items))
        for name, value in items:
            n, v = utf(name), utf(value)
            data += le("H", len(n)) + n + le("HH", 0, len(v)) + v
        objs.append(obj("D2D0A440-E307-11D2-97F0-00A0C95EA850", data))
    audio = "F8699E40-5B4D-11CF-A8FD-00805F5C442B"
    video = "BC19EFC0-5B4D-11CF-A8FD-00805F5C442B"
    g = 0
    nb, rate = rng.pick([1, 2]), rng.pick([22050, 44100])
    no_ec = guid("20FB5700-5B55-11CF-A8FD-00805F5C442B")
    fmt = le("HHIIHH", 0x161, nb, rate, 8000, 100, 16) + le("H", 0)
    objs.append(obj("B7DC0791-A9B7-11CF-8EE6-00C00C205365", guid(audio) + no_ec + le(
        "QIIHI", 0, len(fmt), 0, 1, 0) + fmt))
    f.add("nb_channel", nb, group=g)
    f.add("sample_rate", rate, group=g)
    f.add("bits_per_sample", 16, group=g)
    g += 1
    if rng.chance(0.6):
        w, h = rng.randrange(16, 800), rng.randrange(16, 600)
        fmt = le("IIBH", w, h, 2, 40) + le("IiiHH4sIiiII", 40, w, h, 1, 24, b"WMV3",
                                         w * h * 3, 0, 0, 0, 0)
        objs.append(obj("B7DC0791-A9B7-11CF-8EE6-00C00C205365", guid(video) + no_ec + le(
            "QIIHI", 0, len(fmt), 0, 2, 0) + fmt))
        f.add("width", w, group=g)
        f.add("height", h, group=g)
        f.add("bits_per_pixel", 24, group=g)
    head = b"".join(objs)
    out = obj("75B22630-668E-11CF-A6D9-00AA0062CE6C", le("IBB", len(objs), 1, 2) + head)
    out += obj("75B22636-668E-11CF-A6D9-00AA0062CE6C", rng.randbytes(16) + le(
        "QBB", 1, 1, 1) + rng.randbytes(100))
    # Size of the file, after the header of two objects and the identifier
    pos = 30 + 24 + 16
    return out[:pos] + le("Q", len(out)) + out[pos + 8:], f


# -------------------------------------------------------------- archives

def zipped(rng):
    f = Facts()
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for i in range(rng.randrange(1, 5)):
            name = "dir%d/%s.txt" % (i, words(rng, 6).replace(" ", "_"))
            d = date(rng, 1981)
            data = words(rng, rng.pick([0, 10, 500])).encode()
            if rng.chance(0.1):
                inner = io.BytesIO()
                with zipfile.ZipFile(inner, "w") as y:
                    y.writestr("inner", data)
                data = inner.getvalue()
            zi = zipfile.ZipInfo(name, (d.year, d.month, d.day, d.hour, d.minute, d.second))
            zi.compress_type = rng.pick([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            z.writestr(zi, data)
            f.add("filename", name, group=i)
            f.add("creation_date", d.replace(second=d.second // 2 * 2), group=i)
            f.add("file_size", len(data), group=i)
            f.add("compr_size", *([zi.compress_size] if zi.compress_size else []), group=i)
        if rng.chance(0.5):
            t = text(rng)
            z.comment = t.encode()
            f.add("comment", t)
    return out.getvalue(), f


def tarred(rng):
    f = Facts()
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w", format=tarfile.USTAR_FORMAT) as t:
        for i in range(rng.randrange(1, 5)):
            ti = tarfile.TarInfo("dir/%s%d" % (words(rng, 6).replace(" ", "_"), i))
            d = date(rng)
            data = words(rng, rng.pick([0, 10, 700])).encode()
            ti.size = len(data)
            ti.mtime = secs(d, 1970)
            ti.mode = rng.pick([0o644, 0o755, 0o4711])
            ti.uid, ti.gid, ti.uname, ti.gname = 1000, 1001, "joe", "users"
            t.addfile(ti, io.BytesIO(data))
            f.add("filename", ti.name, group=i)
            f.add("file_size", len(data), group=i)
            f.add("last_modification", d, group=i)
            f.add("author", "joe (uid=1000), group users (gid=1001)", group=i)
    return out.getvalue(), f


def gzipped(rng):
    f = Facts()
    data = words(rng, rng.pick([1, 100, 5000])).encode()
    d = date(rng)
    out = io.BytesIO()
    name = rng.pick(["", words(rng, 8).replace(" ", "_") + ".txt"])
    with gzip.GzipFile(name, "wb", rng.randrange(1, 10), out, mtime=secs(d, 1970)) as z:
        z.write(data)
    out = out.getvalue()
    if name:
        f.add("filename", name)
    f.add("last_modification", d)
    f.add("file_size", len(data))
    head = 10 + (len(name) + 1 if name else 0)
    f.add("compr_size", len(out) - head - 8)
    f.add("compression", "deflate")
    return out, f


def cab(rng):
    f = Facts()
    files = []
    whole = b""
    n = rng.randrange(1, 5)
    for i in range(n):
        d = date(rng, 1981)
        data = words(rng, rng.pick([1, 10, 300])).encode()
        name = "%s%d.txt" % (words(rng, 5).replace(" ", "_"), i)
        files.append(le("IIHHHH", len(data), len(whole), 0,
                        d.year - 1980 << 9 | d.month << 5 | d.day,
                        d.hour << 11 | d.minute << 5 | d.second // 2, 0x20)
                     + name.encode() + b"\0")
        whole += data
        f.add("filename", name, group=i)
        f.add("file_size", len(data), group=i)
        f.add("creation_date", d.replace(second=d.second // 2 * 2), group=i)
    f.add("comment", "1 folders, %d files" % n)
    f.add("compression", "Uncompressed")
    f.add("format_version", "Microsoft Cabinet version 1.3")
    pos = 36 + 8 + sum(map(len, files))
    head = b"MSCF" + le("IIIIIBBHHHHH", 0, pos + 8 + len(whole), 0, 44, 0, 3, 1, 1, n, 0, 1, 0)
    return (head + le("IHH", pos, 1, 0) + b"".join(files)
            + le("IHH", 0, len(whole), len(whole)) + whole), f


# ------------------------------------------------------------------ misc

def torrent(rng):
    f = Facts()

    def enc(v):
        if isinstance(v, int):
            return b"i%de" % v
        if isinstance(v, str):
            v = v.encode()
        if isinstance(v, bytes):
            return b"%d:%s" % (len(v), v)
        if isinstance(v, list):
            return b"l" + b"".join(map(enc, v)) + b"e"
        return b"d" + b"".join(enc(k) + enc(v[k]) for k in sorted(v)) + b"e"
    d = date(rng)
    size = rng.randrange(1, 1 << 33)
    name, url = text(rng), "http://%s/announce" % words(rng, 8).replace(" ", ".")
    doc = {"announce": url, "creation date": secs(d, 1970),
           "info": {"length": size, "name": name, "piece length": 262144,
                    "pieces": rng.randbytes(40)}}
    f.add("url", url)
    f.add("creation_date", d)
    f.add("file_size", size)
    f.add("filename", name)
    if rng.chance(0.5):
        t = text(rng)
        doc["comment"] = t
        f.add("comment", t, "Piece length: 256.0 KB")
    return enc(doc), f


def ttf(rng):
    f = Facts()
    a, b = date(rng), date(rng)
    copy, author, url = text(rng), text(rng), text(rng)
    lowest = rng.randrange(5, 20)
    f.add("creation_date", a)
    f.add("last_modification", b)
    f.add("copyright", copy)
    f.add("author", author)
    f.add("url", url)
    f.add("version", "2.7")
    head = be("IIIIHHqqhhhhHHhhh", 0x10000, 0x10000, 0, 0x5f0f3cf5, 0, 1000, secs(a, 1904),
              secs(b, 1904), 0, 0, 1, 1, 0, lowest, 2, 0, 0)
    strings = b""
    heads = []
    for key, t in ((0, copy), (5, "Version 2.7"), (8, author), (11, url)):
        platform = rng.pick([1, 3])
        raw = t.encode("utf-16-be") if platform == 3 else t.encode("latin-1")
        heads.append(be("HHHHHH", platform, 1 if platform == 3 else 0,
                        0x409 if platform == 3 else 0, key, len(raw), len(strings)))
        strings += raw
    name = be("HHH", 0, len(heads), 6 + 12 * len(heads)) + b"".join(heads) + strings
    tables = [(b"cvt ", be("hhh", 1, 2, 3)), (b"fpgm", rng.randbytes(9)), (b"head", head),
              (b"hhea", be("HHhhhHhhhhhhhhhhhH", 1, 0, 800, -200, 90, 1000, 0, 0, 1000, 1, 0, 0,
                           0, 0, 0, 0, 0, 1)), (b"name", name)]
    pos = 12 + 16 * len(tables)
    out = be("IHHHH", 0x10000, len(tables), 32, 1, 0)
    body = b""
    for tag, data in tables:
        out += tag + be("III", 0, pos + len(body), len(data))
        body += data + bytes(-len(data) % 4)
    return out + body, f


def swf(rng):
    f = Facts()
    w, h = rng.randrange(100, 10000), rng.randrange(100, 10000)
    n = rng.randrange(1, 500)
    fps = rng.pick([12, 24, 30])
    version = rng.randrange(3, 9)
    f.add("width", w)
    f.add("height", h)
    f.add("frame_rate", float(fps))
    f.add("format_version", "flash version %d" % version)
    f.add("comment", "Frame count: %d" % n)
    bits = max(w, h).bit_length() + 1
    v = bits
    for x in (0, w, 0, h):
        v = v << bits | x
    size = 5 + 4 * bits
    v <<= -size % 8
    rect = v.to_bytes((size + 7) // 8, "big")
    body = rect + le("HH", fps << 8, n)
    for tag, data in ((9, rng.randbytes(3)), (1, b""), (0, b"")):
        body += le("H", tag << 6 | len(data)) + data
    return b"FWS" + bytes([version]) + le("I", 8 + len(body)) + body, f


def iso(rng):
    f = Facts()
    a, b = date(rng), date(rng)
    title, vset, pub, prep, app, copy = [text(rng) for _ in range(6)]

    def ts(d):
        return d.strftime("%Y%m%d%H%M%S").encode() + b"00\0"

    def both(n, fmt):
        return le(fmt, n) + be(fmt, n)
    root = bytes([34, 0]) + both(20, "I") + both(2048, "I") + bytes(7) + b"\2\0\0" + both(1, "H")
    root += b"\1\0"
    d = b"\1CD001\1\0" + fixed("LINUX", 32, b" ") + fixed(title, 32, b" ") + bytes(8)
    d += both(30, "I") + bytes(32) + both(1, "H") + both(1, "H") + both(2048, "H")
    d += both(10, "I") + le("II", 18, 0) + be("II", 19, 0) + root
    d += fixed(vset, 128, b" ") + fixed(pub, 128, b" ") + fixed(prep, 128, b" ")
    d += fixed(app, 128, b" ") + fixed(copy, 37, b" ") + fixed("", 37, b" ") + fixed("", 37, b" ")
    d += ts(a) + ts(b) + b"0" * 16 + b"\0" + b"0" * 16 + b"\0" + b"\1\0"
    f.add("title", title, vset)
    f.add("author", pub, prep)
    f.add("producer", app)
    f.add("copyright", copy)
    f.add("creation_date", a)
    f.add("last_modification", b)
    out = bytes(32768) + d.ljust(2048, b"\0") + (b"\xffCD001\1").ljust(2048, b"\0")
    path = bytes([1, 0]) + le("IH", 20, 1) + b"\0\0"
    return out.ljust(18 * 2048, b"\0") + path.ljust(2048, b"\0") + bytes(11 * 2048), f


def ole2(rng):
    """Compound document with its two summary streams"""
    f = Facts()

    def prop(kind, v):
        if kind == 30:
            s = v.encode("latin-1") + b"\0"
            return le("II", 30, len(s)) + s + bytes(-len(s) % 4)
        if kind == 3:
            return le("Ii", 3, v)
        if kind == 64:
            return le("IQ", 64, secs(v, 1601) * 10000000)
        return le("Ihh", 2, v, 0)

    def stream(fmtid, props):
        pos = 8 + 8 * len(props)
        index = body = b""
        for no, kind, v in props:
            index += le("II", no, pos + len(body))
            body += prop(kind, v)
        sect = le("II", pos + len(body), len(props)) + index + body
        return (le("HHHH", 0xfffe, 0, 4, 2) + bytes(16) + le("I", 1) + guid(fmtid) + le("I", 48)
                + sect)
    title, author, saver, app = text(rng), text(rng), text(rng), text(rng)
    a, b = date(rng), date(rng)
    pages = rng.randrange(1, 500)
    summary = stream("F29F85E0-4FF9-1068-AB91-08002B27B3D9", [
        (1, 2, 1252), (2, 30, title), (4, 30, author), (8, 30, saver), (12, 64, a), (13, 64, b),
        (14, 3, pages), (18, 30, app)])
    manager = text(rng)
    doc = stream("D5CDD502-2E9C-101B-9397-08002B2CF9AE", [(1, 2, 1252), (14, 30, manager)])
    f.add("title", title)
    f.add("author", manager, author, saver)
    f.add("creation_date", a)
    f.add("last_modification", b)
    f.add("nb_page", pages)
    f.add("producer", app)
    streams = [("\5SummaryInformation", summary), ("\5DocumentSummaryInformation", doc)]
    # Version 3 or 4
    shift = rng.pick([9, 9, 12])
    ss = 1 << shift
    per = 4096 // ss
    no, end = 0xffffffff, 0xfffffffe
    # Short streams are in the blocks of 64 bytes of another one
    small = rng.chance(0.5)
    fat = [0xfffffffd, end]
    minifat = root = end
    sizes = [4096, 4096]
    starts = []
    if small:
        sizes = [len(data) for _, data in streams]
        count = [-(-n // 64) for n in sizes]
        free = list(range(sum(count) + rng.randrange(3)))
        table, blocks = {}, {}
        if rng.chance(0.5):
            rng.shuffle(free)
        for (_, data), n in zip(streams, count):
            chain = [free.pop(0) for _ in range(n)]
            starts.append(chain[0])
            for i, b in enumerate(chain):
                table[b] = chain[i + 1] if i < n - 1 else end
                blocks[b] = data[64 * i:64 * i + 64].ljust(64, b"\0")
        nb = max(blocks) + 1
        body = b"".join(blocks.get(b, bytes(64)) for b in range(nb))
        per = -(-len(body) // ss)
        body = body.ljust(per * ss, b"\0")
        minifat, root = 2, 64 * nb
        fat.append(end)
        mini = le("%dI" % (ss // 4), *[table.get(b, no) for b in range(ss // 4)])
        streams[:] = [(streams[0][0], body), (streams[1][0], b"")]
    first = len(fat)
    nsect = first + per * (2 - small)
    chains = []
    free = list(range(first, nsect))
    if rng.chance(0.5):
        rng.shuffle(free)
    sectors = {}
    table = {}
    for name, data in streams[:2 - small]:
        data = data.ljust(4096, b"\0")
        chain = [free.pop(0) for _ in range(per)]
        chains.append(chain)
        for i, s in enumerate(chain):
            table[s] = chain[i + 1] if i < per - 1 else 0xfffffffe
            sectors[s] = data[ss * i:ss * i + ss]
    fat += [table[s] for s in range(first, nsect)]
    fat += [0xffffffff] * (ss // 4 - len(fat))

    def entry(name, kind, left, right, child, start, size):
        raw = (name + "\0").encode("utf-16-le")
        return (raw.ljust(64, b"\0") + le("HBBIII", len(raw), kind, 1, left, right, child)
                + bytes(36) + le("III", start, size, 0))
    if small:
        dirs = entry("Root Entry", 5, no, no, 1, chains[0][0], root)
    else:
        dirs = entry("Root Entry", 5, no, no, 1, end, 0)
        starts = [chain[0] for chain in chains]
        mini = b""
    dirs += entry(streams[0][0], 2, no, 2, no, starts[0], sizes[0])
    dirs += entry(streams[1][0], 2, no, no, no, starts[1], sizes[1])
    dirs += (bytes(66) + bytes(2) + le("III", no, no, no) + bytes(48)) * (ss // 128 - 3)
    head = bytes.fromhex("d0cf11e0a1b11ae1") + bytes(16) + le(
        "HHHHH", 0x3e, shift // 3, 0xfffe, shift, 6) + bytes(6) + le(
        "IIIIIIIII", shift == 12, 1, 1, 0, 4096, minifat, small, end, 0)
    head += le("I", 0) + b"\xff" * (4 * 108)
    assert len(dirs) == ss and len(head) == 512
    return (head.ljust(ss, b"\0") + le("%dI" % (ss // 4), *fat) + dirs + mini + b"".join(
        sectors[s] for s in range(first, nsect))), f


FACTS = {"png": png, "bmp": bmp, "pcx": pcx, "tga": tga, "ico": ico, "gif": gif, "tiff": tiff,
         "psd": psd, "jpeg": jpeg, "wav": wav, "au": au, "aiff": aiff, "flac": flac, "ogg": ogg,
         "mp3": mp3, "avi": avi, "mp4": mp4, "mkv": mkv, "flv": flv, "asf": asf, "zip": zipped,
         "tar": tarred, "gzip": gzipped, "cab": cab, "torrent": torrent, "ttf": ttf, "swf": swf,
         "iso": iso, "ole2": ole2}
FACTS_ID = {"png": "png", "bmp": "bmp", "pcx": "pcx", "tga": "targa", "ico": "ico", "gif": "gif",
            "tiff": "tiff", "psd": "psd", "jpeg": "jpeg", "wav": "riff", "au": "sun_next_snd",
            "aiff": "aiff", "flac": "flac", "ogg": "ogg", "mp3": "mpeg_audio", "avi": "riff",
            "mp4": "mov", "mkv": "matroska", "flv": "flv", "asf": "asf", "zip": "zip",
            "tar": "tar", "gzip": "gzip", "cab": "cab", "torrent": "torrent", "ttf": "ttf",
            "swf": "swf", "iso": "iso9660", "ole2": "ole2"}
