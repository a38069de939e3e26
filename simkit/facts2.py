"""More documents with the facts which they record, see facts.py."""
import bz2
import datetime

from simkit.facts import (Facts, INFO, be, date, info, le, ogg_page, riff, secs, text,
                          vorbis_comment)


def sound_video(rng):
    """Ogg: a video and maybe a sound, whose pages are mixed"""
    f = Facts()
    w, h = rng.randrange(16, 2000), rng.randrange(16, 1500)
    num, den = rng.pick([(25, 1), (30000, 1001), (24, 1), (15, 2)])
    sound = rng.chance(0.7)
    sv, sa = rng.sample(range(1, 1 << 30), 2)
    pixels, name = rng.pick([(0, "4:2:0"), (2, "4:2:2"), (3, "4:4:4")])
    quality = rng.randrange(64)
    f.add("width", w, group=0)
    f.add("height", h, group=0)
    f.add("frame_rate", num / den, group=0)
    f.add("compression", "Theora", group=0)
    f.add("comment", "Quality: %d" % quality, group=0)
    theora = b"\x80theora" + bytes([3, 2, 1]) + be("HH", (w + 15) // 16, (h + 15) // 16)
    theora += w.to_bytes(3, "big") + h.to_bytes(3, "big") + b"\0\0" + be("II", num, den)
    theora += (1).to_bytes(3, "big") * 2 + b"\0" + (0).to_bytes(3, "big")
    theora += be("H", quality << 10 | 6 << 5 | pixels << 3)
    f.add("aspect_ratio", 1.0, group=0)
    out = ogg_page(2, 0, sv, 0, [theora])
    rate, nb = rng.pick([22050, 44100, 48000]), rng.pick([1, 2])
    n = rng.randrange(1, 400) * rate // 4
    if sound:
        out += ogg_page(2, 0, sa, 0, [b"\x01vorbis" + le("IBIiiiBB", 0, nb, rate, 0, 64000, 0,
                                                         0xb8, 1)])
        f.add("nb_channel", nb, group=1)
        f.add("sample_rate", rate, group=1)
        f.add("duration", datetime.timedelta(seconds=n / rate))
    f.add("mime_type", "video/theora")
    out += ogg_page(0, 0, sv, 1, [b"\x81theora" + vorbis_comment(rng, f)])
    if sound:
        out += ogg_page(0, 0, sa, 1, [b"\x03vorbis" + le("I", 0) + le("I", 0) + b"\1",
                                      b"\x05vorbis" + rng.randbytes(20)])
    pages = []
    for serial, sure in ((sv, True), (sa, sound)):
        count = rng.randrange(1, 4)
        for i in range(count if sure else 0):
            gran = n * (i + 1) // count if serial == sa else (i + 1) << 6
            pages.append((i / count, ogg_page(4 if i == count - 1 else 0, gran, serial, 2 + i,
                                              [rng.randbytes(rng.randrange(1, 300))])))
    pages.sort(key=lambda p: p[0])
    if sound and pages[-2][1][5] == 4 and rng.chance(0.5):
        # Both are the last one of a stream
        pages[-2:] = pages[:-3:-1]
    return out + b"".join(p[1] for p in pages), f


def real_audio(rng):
    f = Facts()
    texts = [text(rng) + rng.pick(["", " \u00e9"]) for _ in range(4)]
    for key, t in zip(("title", "author", "copyright", "comment"), texts):
        f.add(key, t)
    meta = b"".join(bytes([len(t)]) + t.encode("latin-1") for t in texts)
    size = rng.randrange(100, 600)
    codec, rate = rng.pick([("28_8", 15200), ("14_4", 8000), ("lpcJ", 8000)])
    data = rng.randbytes(size)
    f.add("compression", codec)
    f.add("bit_rate", rate)
    f.add("duration", datetime.timedelta(seconds=size * 8 / rate))
    four = b"\4" + codec.encode()
    if rng.chance(0.5):
        f.add("sample_rate", 8000)
        f.add("nb_channel", 1)
        rest = meta + b"\0" + four
        return b".ra\xfd" + be("HH", 3, len(rest) + 14) + rng.randbytes(10) + be(
            "I", size) + rest + data, f
    hz, nb = rng.pick([8000, 11025, 22050, 44100]), rng.pick([1, 2])
    f.add("sample_rate", hz)
    f.add("nb_channel", nb)
    rest = be("HII", 2, 240, 0) + rng.randbytes(8) + be("HHHHHHHH", 1, 240, 0, 0, hz, 0, 16, nb)
    rest += b"\4Int0" + four + bytes(3) + meta
    head = 4 + 2 + 2 + 4 + 4 + 2 + 4 + len(rest)
    return b".ra\xfd" + be("HH", 4, 0) + b".ra4" + be("IHI", head + size - 40, 4, head - 16) + (
        rest + data), f


def real_media(rng):
    f = Facts()

    def ck(tag, data):
        return tag + be("IH", 10 + len(data), 0) + data

    def pascal(t, fmt="H"):
        t = t.encode("latin-1")
        return be(fmt, len(t)) + t
    ms, br = rng.randrange(1, 10000000), rng.randrange(1000, 1000000)
    f.add("duration", datetime.timedelta(milliseconds=ms))
    f.add("bit_rate", br)
    out = [ck(b"PROP", be("9IHH", br + 5, br, 9, 8, 7, ms, 0, 0, 0, 2, 0))]
    comments = []
    if rng.chance(0.7):
        texts = [text(rng) for _ in range(4)]
        out.append(ck(b"CONT", b"".join(map(pascal, texts))))
        for key, t in zip(("title", "author", "copyright"), texts):
            f.add(key, t)
        comments.append(texts[3])
    streams = rng.randrange(1, 3)
    mimes = []
    for i in range(streams):
        sms, sbr = rng.randrange(1, 10000000), rng.randrange(1000, 1000000)
        desc = text(rng)
        mime = rng.pick(["audio/x-pn-realaudio", "video/x-pn-realvideo"])
        spec = rng.randbytes(rng.pick([0, 30]))
        out.append(ck(b"MDPR", be("H7I", i, sbr + 1, sbr, 9, 8, 0, 0, sms) + pascal(desc, "B")
                      + pascal(mime, "B") + be("I", len(spec)) + spec))
        mimes.append(mime)
        f.add("title", desc, group=i)
        f.add("bit_rate", sbr, group=i)
        f.add("duration", datetime.timedelta(milliseconds=sms), group=i)
        f.add("mime_type", mime, group=i)
    # "video" if there is one
    f.add("mime_type", max(mimes))
    if rng.chance(0.6):
        app, desc, when, then = text(rng), text(rng), date(rng), date(rng)
        props = [("Generated By", app), ("Description", desc),
                 ("Creation Date", "%d/%d/%d %d:%02d:%02d" % (
                     when.month, when.day, when.year, when.hour, when.minute, when.second)),
                 ("Modification Date", then.strftime("%m/%d/%Y %H:%M:%S"))]
        f.add("producer", app)
        f.add("last_modification", then)
        f.add("creation_date", when)
        comments.append(desc)
        body = b""
        for k, v in props:
            item = be("H", 0) + pascal(k, "B") + be("I", 2) + pascal(v + "\0")
            body += be("I", 4 + len(item)) + item
        phys = rng.randrange(3)
        body = be("HH", 0, phys) + be("%dH" % phys, *range(phys)) + be(
            "%dI" % phys, *range(1000, 1000 + phys)) + be("HH", 0, len(props)) + body
        body = be("I", 4 + len(body)) + body
        out.append(ck(b"MDPR", be("H7I", streams, 0, 0, 0, 0, 0, 0, 0) + pascal("", "B")
                      + pascal("logical-fileinfo", "B") + be("I", len(body)) + body))
    if comments:
        f.add("comment", *comments)
    out.append(ck(b"DATA", rng.randbytes(60)))
    head = b".RMF" + be("IHII", 18, 1, 0, len(out))
    return head + b"".join(out), f


def pcf(rng):
    f = Facts()
    props = [(k, text(rng)) for k in ("COPYRIGHT", "WEIGHT_NAME", "FOUNDRY", "FONT",
                                      "_XMBDFED_INFO")]
    for (name, t), key in zip(props, ("copyright", "font_weight", "author", "title",
                                      "producer")):
        f.add(key, t)
    props += [("PIXEL_SIZE", rng.randrange(5, 50)), ("POINT_SIZE", 120)]
    rng.shuffle(props)
    # The order of the bytes is given by the bit 2
    form, pack = rng.pick([(0xe, be), (0xa, le), (6, be), (0, le)])
    index = strings = b""
    for name, v in props:
        no = len(strings)
        strings += name.encode() + b"\0"
        if isinstance(v, str):
            index += pack("IBI", no, 1, len(strings))
            strings += v.encode() + b"\0"
        else:
            index += pack("IBI", no, 0, v)
    table = le("I", form) + pack("I", len(props)) + index
    table += bytes(-len(table) % 4) + pack("I", len(strings)) + strings
    table += bytes(-len(table) % 4)
    extra = rng.randbytes(40)
    pos = 8 + 32
    return b"\1fcp" + le("I", 2) + le("IIII", 1, form, len(table), pos) + le(
        "IIII", 2, form, len(extra), pos + len(table)) + table + extra, f


def xcf(rng):
    f = Facts()
    w, h = rng.randrange(1, 3000), rng.randrange(1, 3000)
    kind, name, bpp = rng.pick([(0, "RGB", 24), (1, "Gray", 8), (2, "Indexed", 8)])
    f.add("width", w)
    f.add("height", h)
    f.add("bits_per_pixel", bpp)

    def prop(no, data):
        return be("II", no, len(data)) + data

    def string(t):
        t = t.encode() + b"\0"
        return be("I", len(t)) + t
    props = []
    no, c = rng.pick([(0, "None"), (1, "RLE"), (2, "Zlib")])
    props.append(prop(17, bytes([no])))
    f.add("compression", c)
    if rng.chance(0.7):
        x, y = rng.pick([72, 96, 300]), rng.pick([72, 300])
        props.append(prop(19, be("ff", x, y)))
        f.add("width_dpi", x)
        f.add("height_dpi", y)
    if rng.chance(0.6):
        t = text(rng) + rng.pick(["", " \u00e9"])
        parasites = [string("gimp-comment") + be("I", 1) + string(t)]
        if rng.chance(0.5):
            parasites.append(string("icc-name") + be("I", 1) + string(text(rng)))
            rng.shuffle(parasites)
        props.append(prop(21, b"".join(parasites)))
        f.add("comment", t)
    props.append(prop(20, be("I", 2)))
    rng.shuffle(props)
    magic = rng.pick([b"file", b"v002", b"v003"])
    return b"gimp xcf " + magic + b"\0" + be("III", w, h, kind) + b"".join(props) + prop(
        0, b"") + be("II", 0, 0), f


def wmf(rng):
    f = Facts()
    if rng.chance(0.5):
        x, y = rng.randrange(-100, 100), rng.randrange(-100, 100)
        w, h = rng.randrange(1, 5000), rng.randrange(1, 5000)
        f.add("width", w)
        f.add("height", h)
        words = [0xcdd7, 0x9ac6, 0, x & 0xffff, y & 0xffff, x + w & 0xffff, y + h & 0xffff, 96,
                 0, 0]
        check = 0
        for v in words:
            check ^= v
        funcs = le("IHH", 4, 0x103, 8) + le("IHHH", 5, 0x20b, 0, 0) + le(
            "IHHH", 5, 0x20c, h & 0xffff, w & 0xffff) + le("IH", 3, 0x1e) + le(
            "IH", 3, 0x35) + le("IH", 3, 0)
        return le("11H", *words, check) + le("HHBBIHIH", 1, 9, 0, 3, 9 + len(funcs) // 2, 0, 5,
                                             0) + funcs, f
    app, title = text(rng), text(rng)
    desc = (app + "\0" + title + "\0\0").encode("utf-16-le")
    f.add("producer", app)
    f.add("title", title)
    colors = rng.pick([0, 0, 16, 256])
    if colors:
        f.add("nb_colors", colors)
    w, h = rng.randrange(100, 3000), rng.randrange(100, 3000)
    # The header was extended twice
    ext = rng.pick([0, 12, 20])
    pos = 88 + ext
    pad = -len(desc) % 4
    funcs = le("IIi", 17, 12, 8) + le("IIii", 9, 16, w, h) + le("IIii", 10, 16, 0, 0)
    funcs += le("IIi", 18, 12, 1) + le("IIi", 20, 12, 13) + le("IIIII", 14, 20, 0, 16, 20)
    size = pos + len(desc) + pad
    head = le("II", 1, size) + le("4i", 0, 0, w, h) + le("4i", 0, 0, w * 26, h * 26)
    head += b" EMF" + le("HHIIHHIIIiiii", 0, 1, size + len(funcs), 7, 1, 0, len(desc) // 2, pos,
                         colors, 1024, 768, 320, 240)
    if ext >= 12:
        head += le("III", 0, 0, 0)
    if ext >= 20:
        head += le("ii", 320000, 240000)
    return head + desc + bytes(pad) + funcs, f


def version_info(values, wide):
    """Resource "version information" of a program"""
    def node(name, kind, value, children, count=None):
        if wide:
            head = le("HH", len(value) if count is None else count, kind)
            head += (name + "\0").encode("utf-16-le")
            data = le("H", 0) + head
        else:
            data = le("HH", 0, len(value)) + name.encode() + b"\0"
        data += bytes(-len(data) % 4) + value
        for c in children:
            data += bytes(-len(data) % 4) + c
        return le("H", len(data)) + data[2:]
    strings = []
    for k, v in values:
        if wide:
            strings.append(node(k, 1, (v + "\0").encode("utf-16-le"), [], len(v) + 1))
        else:
            strings.append(node(k, 1, v.encode() + b"\0", []))
    fixed = le("13I", 0xfeef04bd, 0x10000, 0x10002, 0, 0x10002, 0, 0x3f, 0, 0x40004, 1, 0, 0, 0)
    table = node("StringFileInfo", 1, b"", [node("040904B0", 1, b"", strings)])
    var = node("VarFileInfo", 1, b"", [node("Translation", 0, le("HH", 0x409, 1200), [])])
    data = node("VS_VERSION_INFO", 0, fixed, [table, var])
    return data + bytes(-len(data) % 4)


def program(rng):
    f = Facts()
    keys = [("CompanyName", "author"), ("LegalCopyright", "copyright"),
            ("ProductVersion", "version")]
    values = []
    for name, key in keys:
        if rng.chance(0.7):
            v = text(rng)
            values.append((name, v))
            f.add(key, v)
    titles = [text(rng), text(rng)]
    if rng.chance(0.7):
        values += [("FileDescription", titles[1]), ("ProductName", titles[0])]
        f.add("title", titles[1], titles[0])
    values.append(("OriginalFilename", text(rng)))
    rng.shuffle(values)
    pos = 128
    if rng.chance(0.3):
        f.clear()
        for name, key in keys:
            for k, v in values:
                if k == name:
                    f.add(key, v)
        dos = b"MZ" + le("HHHHHH", 0, 4, 0, 4, 0, 0xffff) + le("IHIHH", 0, 0, 0, 64, 0)
        dos = dos.ljust(60, b"\0") + le("I", pos)
        ne = b"NE" + bytes([5, 10]) + bytes(8) + le("H", 2)
        ne = ne.ljust(54, b"\0") + b"\2"
        ne = ne.ljust(64, b"\0")
        return (dos.ljust(pos, b"\0") + ne).ljust(512, b"\0") + version_info(
            values, False) + bytes(16), f
    when = date(rng)
    cpu, cpu_name = rng.pick([(0x14c, "Intel 80386"), (0x200, "Intel IA64"), (0x1c0, "ARM")])
    sub, sub_name = rng.pick([(1, "Native"), (2, "Windows GUI"), (3, "Windows CUI")])
    f.add("creation_date", when)
    f.add("comment", "CPU: " + cpu_name, "Subsystem: " + sub_name)
    plus = rng.chance(0.4)
    info = version_info(values, True)
    rva = 0x2000

    def directory(entries):
        return le("IIHHHH", 0, 0, 4, 0, 0, len(entries)) + b"".join(
            le("II", a, b) for a, b in entries)
    up = 1 << 31
    rsrc = directory([(16, 24 | up)]) + directory([(1, 48 | up)]) + directory([(0x409, 72)])
    rsrc += le("IIII", rva + 88, len(info), 0, 0) + info
    rsrc += bytes(-len(rsrc) % 512)
    opt = le("HBBIIIII", 0x20b if plus else 0x10b, 8, 0, 512, len(rsrc), 0, 0x1000, 0x1000)
    if not plus:
        opt += le("I", rva)
    opt += le("Q" if plus else "I", 0x400000) + le("II", 0x1000, 512)
    opt += le("HHHHHHI", 4, 0, 0, 0, 4, 0, 0) + le("IIIHH", 0x3000, 512, 0, sub, 0)
    opt += le("QQQQ" if plus else "IIII", 0x100000, 0x1000, 0x100000, 0x1000) + le("II", 0, 16)
    dirs = [(0, 0)] * 16
    dirs[2] = (rva, len(rsrc))
    opt += b"".join(le("II", a, b) for a, b in dirs)
    code = rng.randbytes(20).ljust(512, b"\0")
    head = b"PE\0\0" + le("HHIIIHH", cpu, 2, secs(when, 1970), 0, 0, len(opt),
                          0x102 | rng.pick([0, 0x2000]))
    sections = b".text\0\0\0" + le("6I", 20, 0x1000, 512, 512, 0, 0) + le("HHI", 0, 0, 0x60000020)
    sections += b".rsrc\0\0\0" + le("6I", len(rsrc), rva, len(rsrc), 1024, 0, 0) + le(
        "HHI", 0, 0, 0x40000040)
    dos = b"MZ" + le("HHHHHH", 0x90, 3, 0, 4, 0, 0xffff) + le("IHIHH", 0xb8, 0, 0, 64, 0)
    dos = dos.ljust(60, b"\0") + le("I", pos)
    return (dos.ljust(pos, b"\0") + head + opt + sections).ljust(512, b"\0") + code + rsrc, f


def mar(rng):
    f = Facts()
    n = rng.randrange(1, 6)
    pos = 12 + 68 * n
    index = data = b""
    for i in range(n):
        name = "%s%d.txt" % (text(rng), i)
        body = rng.randbytes(rng.pick([0, 1, 50]))
        index += name.encode().ljust(56, b"\0") + le("III", len(body), rng.randrange(1 << 32),
                                                     pos + len(data))
        data += body
        f.add("filename", name, group=i)
        f.add("file_size", len(body), group=i)
    return b"MARC" + le("II", 3, n) + index + data, f


def bzip(rng):
    f = Facts()
    data = bz2.compress(rng.randbytes(rng.randrange(1, 200)) * rng.randrange(1, 5),
                        rng.randrange(1, 10))
    return data, f


def ani(rng):
    f = Facts()
    n = rng.randrange(1, 5)
    rate = rng.randrange(1, 60)
    chunks = []
    if rng.chance(0.4):
        chunks.append((b"LIST", info(rng, f, INFO)))
    chunks.append((b"anih", le("9I", 36, n, n, 0, 0, 0, 0, rate, 1)))
    if rng.chance(0.4):
        rates = [rng.randrange(1, 60) for _ in range(n)]
        chunks.append((b"rate", le("%dI" % n, *rates)))
        f.add("frame_rate", n / (sum(rates) / 60))
    else:
        f.add("frame_rate", 60 / rate)
    icons = b"".join(b"icon" + le("I", 30) + rng.randbytes(30) for _ in range(n))
    chunks.append((b"LIST", b"fram" + icons))
    if chunks[0][0] != b"anih":
        # The first chunk of the documents which are recognised
        chunks.insert(0, chunks.pop(1))
    return riff(b"ACON", chunks), f


def midi(rng):
    """Music, without facts"""
    def number(n):
        out = bytes([n & 127])
        while n >> 7:
            n >>= 7
            out = bytes([n & 127 | 128]) + out
        return out

    def meta(kind, data):
        return b"\xff" + bytes([kind]) + number(len(data)) + data
    end = meta(0x2f, b"")
    n = rng.randrange(1, 4)
    out = b"MThd" + be("IHHH", 6, n > 1, n, rng.pick([96, 480]))
    for _ in range(n):
        data = number(0) + meta(3, text(rng).encode())
        for _ in range(rng.randrange(1, 12)):
            data += number(rng.pick([0, 1, 127, 128, 20000]))
            k = rng.randrange(10)
            if k < 3:
                data += bytes([0x90 | rng.randrange(16), rng.randrange(128), 64])
                for _ in range(rng.randrange(3)):
                    # The same status
                    data += number(rng.randrange(200)) + bytes([rng.randrange(128), 0])
            elif k == 3:
                data += bytes([0xc0 | rng.randrange(16), rng.randrange(128)])
            elif k == 4:
                data += meta(rng.pick([1, 2, 5]), text(rng).encode())
            elif k == 5:
                data += meta(0x51, (500000).to_bytes(3, "big"))
            elif k == 6:
                # Looks like the end
                data += meta(0x7f, rng.randbytes(3) + end + rng.randbytes(2))
            elif k == 7:
                data += meta(0x58, bytes([4, 2, 24, 8]))
            elif k == 8:
                # Text without any character
                data += meta(rng.pick([1, 2, 3, 6]), b"")
            else:
                # System exclusive message
                block = rng.randbytes(rng.pick([1, 4, 200])) + b"\xf7"
                data += bytes([rng.pick([0xf0, 0xf7])]) + number(len(block)) + block
        data += number(0) + end
        out += b"MTrk" + be("I", len(data)) + data
    return out


def zone(minutes):
    return datetime.timezone(datetime.timedelta(minutes=minutes))


def dated(rng):
    """WAV whose date is some text"""
    f = Facts()
    d = date(rng, 1980)
    kind = rng.randrange(7)
    minutes = rng.pick([0, 120, -300, 330, -210, 765, 60])
    sign = "%s%02d%02d" % ("-" if minutes < 0 else "+", abs(minutes) // 60, abs(minutes) % 60)
    s = [lambda: d.strftime("%Y"), lambda: d.strftime("%Y-%m-%d"),
         lambda: d.strftime("%Y-%m-%d %H:%M:%S"), lambda: d.strftime("%Y/%m/%d %H:%M:%S"),
         lambda: d.strftime("%a %b %d %H:%M:%S %Y"), lambda: d.strftime("%a, %d %b %Y %H:%M:%S"),
         lambda: d.strftime("%a, %d %b %Y %H:%M:%S ") + sign][kind]()
    want = [datetime.date(d.year, 1, 1), d.date(), d, d, d, d, d.replace(tzinfo=zone(minutes))]
    f.add("creation_date", want[kind])
    nb, rate = rng.pick([1, 2]), rng.pick([8000, 44100])
    fmt = le("HHIIHH", 1, nb, rate, rate * nb, nb, 8)
    s = s.encode() + b"\0"
    inf = b"INFO" + rng.pick([b"ICRD", b"IDIT"]) + le("I", len(s)) + s + bytes(len(s) % 2)
    n = rng.randrange(80, 2000) * nb
    f.add("duration", datetime.timedelta(seconds=n / nb / rate))
    f.add("nb_channel", nb)
    return riff(b"WAVE", [(b"fmt ", fmt), (b"data", rng.randbytes(n)), (b"LIST", inf)]), f


FACTS = {"theora": sound_video, "real_audio": real_audio, "real_media": real_media, "pcf": pcf,
         "xcf": xcf, "wmf": wmf, "program": program, "mar": mar, "bzip": bzip, "ani": ani,
         "dated": dated}
FACTS_ID = {"theora": "ogg", "real_audio": "real_audio", "real_media": "real_media",
            "pcf": "pcf", "xcf": "xcf", "wmf": "wmf", "program": "exe", "mar": "mar",
            "bzip": "bzip2", "ani": "riff", "dated": "riff"}

# Documents without facts
PLAIN = {"midi": midi}
PLAIN_ID = {"midi": "midi"}
