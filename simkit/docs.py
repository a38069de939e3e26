"""Documents: corpus files, generated files, media damage, canonical dumps of
field trees, and random access schedules over lazily parsed trees."""
import bz2
import gzip
import hashlib
import io
import itertools
import json
import os
import re
import plistlib
import struct
import tarfile
import wave
import zipfile
import zlib

from simkit.core import REPO, Violation, make_rng, short
from simkit import facts, facts2, gens, gens2, seams

FILES = os.path.join(REPO, "tests", "files")
_data = {}


def load(name):
    """Content of a document: 'file' of the corpus, or 'gen:kind:seed'."""
    if name not in _data:
        if name.startswith("gen:"):
            _, kind, seed = name.split(":")
            _data[name] = GENERATORS[kind](make_rng("doc", kind, seed))
        else:
            with seams.real.open(os.path.join(FILES, name), "rb") as f:
                _data[name] = f.read()
    return _data[name]


def expected(name):
    """Contents of the files of a generated document"""
    out = []
    if name.startswith("gen:"):
        _, kind, seed = name.split(":")
        if GENERATORS[kind].__defaults__:
            GENERATORS[kind](make_rng("doc", kind, seed), out)
    return out


def corpus_names():
    return sorted(n for n in os.listdir(FILES)
                  if os.path.isfile(os.path.join(FILES, n)))


# ------------------------------------------------------- generated documents

def words(rng, n):
    out = []
    while n > 0:
        w = "".join(rng.pick("abcdefghijklmnop") for _ in range(rng.randrange(1, 9)))
        out.append(w)
        n -= len(w) + 1
    return " ".join(out).encode()


def payload(rng, big=5000):
    n = rng.pick([0, 1, 10, 100, rng.randrange(1, big), rng.randrange(1, big)])
    k = rng.randrange(3)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return bytes([rng.randrange(256)]) * n
    return words(rng, n)[:n]


def gen_zip(rng, expected=None):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for i in range(rng.randrange(1, 5)):
            info = zipfile.ZipInfo("file%d.txt" % i, (2001 + i, 2, 3, 4, 5, 6))
            info.compress_type = rng.pick([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            if rng.chance(0.3):
                info.comment = b"comment"
            data = payload(rng)
            if rng.chance(0.25):
                data = gen_gzip(rng)
            if expected is not None:
                expected.append(data)
            z.writestr(info, data)
        if rng.chance(0.3):
            z.comment = b"archive comment"
    return out.getvalue()


def gen_tar(rng, expected=None):
    out = io.BytesIO()
    fmt = rng.pick([tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT])
    with tarfile.open(fileobj=out, mode="w", format=fmt) as t:
        for i in range(rng.randrange(1, 6)):
            info = tarfile.TarInfo("dir/name%d.%s" % (i, rng.pick(["txt", "bin"])))
            info.mtime = 1000000000 + i
            info.uname = info.gname = "user"
            kind = rng.randrange(5)
            if kind == 0:
                info.type = tarfile.DIRTYPE
                t.addfile(info)
            elif kind == 1:
                info.type = tarfile.SYMTYPE
                info.linkname = "target"
                t.addfile(info)
            else:
                data = payload(rng)
                info.size = len(data)
                if expected is not None:
                    expected.append(data)
                t.addfile(info, io.BytesIO(data))
    return out.getvalue()


def gen_gzip(rng, expected=None):
    out = io.BytesIO()
    with gzip.GzipFile(rng.pick(["", "name.txt"]), "wb", rng.randrange(1, 10), out,
                       mtime=1000000000) as f:
        data = payload(rng, 60000) or b"x"
        if expected is not None:
            expected.append(data)
        f.write(data)
    return out.getvalue()


def gen_bzip2(rng, expected=None):
    data = payload(rng, 30000) or b"x"
    if expected is not None:
        expected.append(data)
    return bz2.compress(data, rng.randrange(1, 10))


def gen_bplist(rng):
    def value(depth):
        k = rng.randrange(8 if depth < 3 else 6)
        if k == 0:
            return rng.randrange(-2**40, 2**40)
        if k == 1:
            return words(rng, 20).decode()
        if k == 2:
            return rng.randbytes(rng.randrange(40))
        if k == 3:
            return rng.chance(0.5)
        if k == 4:
            return rng.random()
        if k == 5:
            return "\u00e9\u4e2d%d" % rng.randrange(100)
        if k == 6:
            return [value(depth + 1) for _ in range(rng.randrange(5))]
        return {"k%d" % i: value(depth + 1) for i in range(rng.randrange(5))}
    return plistlib.dumps({"root": value(0), "b": value(1)}, fmt=plistlib.FMT_BINARY)


def gen_ar(rng, expected=None):
    out = [b"!<arch>\n"]
    for i in range(rng.randrange(1, 5)):
        data = payload(rng)
        out.append(b"%-16s%-12d%-6d%-6d%-8s%-10d`\n" % (
            b"member%d.o/" % i, 1000000000, 0, 0, b"100644", len(data)))
        if expected is not None:
            expected.append(data)
        out.append(data)
        if len(data) % 2:
            out.append(b"\n")
    return b"".join(out)


def gen_wav(rng):
    out = io.BytesIO()
    with wave.open(out, "wb") as w:
        w.setnchannels(rng.pick([1, 2]))
        w.setsampwidth(rng.pick([1, 2]))
        w.setframerate(rng.pick([8000, 44100]))
        w.writeframes(rng.randbytes(4 * rng.randrange(1, 2000)))
    return out.getvalue()


def chunk(tag, data):
    return struct.pack(">I", len(data)) + tag + data + struct.pack(
        ">I", zlib.crc32(tag + data))


def gen_png(rng):
    w, h = rng.randrange(1, 60), rng.randrange(1, 60)
    raw = b"".join(b"\0" + rng.randbytes(w) for _ in range(h))
    comp = zlib.compress(raw)
    out = [b"\x89PNG\r\n\x1a\n", chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0))]
    if rng.chance(0.5):
        out.append(chunk(b"tEXt", b"Comment\0" + words(rng, 30)))
    if rng.chance(0.3):
        out.append(chunk(b"gAMA", struct.pack(">I", 45455)))
    n = rng.randrange(1, 4)
    step = max(1, (len(comp) + n - 1) // n)
    for i in range(0, len(comp), step):
        out.append(chunk(b"IDAT", comp[i:i + step]))
    out.append(chunk(b"IEND", b""))
    return b"".join(out)


def gen_bmp(rng):
    w, h = rng.randrange(1, 40), rng.randrange(1, 40)
    row = (w * 3 + 3) // 4 * 4
    pix = rng.randbytes(row * h)
    return (b"BM" + struct.pack("<IHHI", 54 + len(pix), 0, 0, 54)
            + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(pix), 2835, 2835, 0, 0)
            + pix)


def gen_zlib(rng, expected=None):
    data = payload(rng, 20000) or b"x"
    if expected is not None:
        expected.append(data)
    return zlib.compress(data, rng.pick([0, 1, 6, 9]))


def gen_id3(rng):
    frames = b""
    for tag in (b"TIT2", b"TPE1", b"TALB", b"TYER"):
        if rng.chance(0.7):
            text = b"\0" + words(rng, 20)
            frames += tag + struct.pack(">IH", len(text), 0) + text
    size = len(frames)
    head = b"ID3\3\0\0" + bytes(((size >> 21) & 127, (size >> 14) & 127,
                                 (size >> 7) & 127, size & 127))
    frame = b"\xff\xfb\x90\x00" + bytes(413)
    return head + frames + frame * rng.randrange(3, 12)


def fat_files(rng, n=None):
    """[(name, content)]; content is None for a directory, whose files follow
    in a list"""
    out = []
    for i in range(rng.randrange(1, 5) if n is None else n):
        out.append(("FILE%d" % i, rng.randbytes(rng.pick(
            [0, 1, 100, 512, 513, rng.randrange(1, 3000), rng.randrange(1, 5000)]))))
    return out


def gen_fat(rng, expected=None, version=16):
    """FAT12, FAT16 or FAT32 image whose files are fragmented. expected: list
    which receives the content of the files."""
    ss = 512
    spc = rng.pick([1, 1, 2])
    csize = ss * spc
    nclus = rng.randrange(120, 200)
    max_root = 0 if version == 32 else rng.pick([16, 32])
    fat_sectors = (nclus * version // 8 + ss) // ss
    fat = {}
    clusters = {}
    free = list(range(2 if version != 32 else 3, nclus))
    if rng.chance(0.7):
        rng.shuffle(free)
    eoc = {12: 0xfff, 16: 0xffff, 32: 0x0fffffff}[version]

    def store(data):
        if not data:
            return 0
        chain = [free.pop(0) for _ in range(0, len(data), csize)]
        for i, c in enumerate(chain):
            fat[c] = chain[i + 1] if i + 1 < len(chain) else eoc
            clusters[c] = data[i * csize:(i + 1) * csize].ljust(csize, b"\0")
        return chain[0]

    def entry(name, ext, attr, cluster, size):
        return (name.encode().ljust(8) + ext.encode().ljust(3)
                + struct.pack("<BBBHHHHHHHI", attr, 0, 0, 0x6000, 0x2a21, 0x2a21,
                              (cluster >> 16), 0x6000, 0x2a21, cluster & 0xffff, size))

    def lfn(name):
        u = (name + "\0").ljust(13, "\uffff").encode("utf-16-le")
        return (b"\x41" + u[:10] + b"\x0f\0\0" + u[10:22] + b"\0\0" + u[22:26])

    def directory(files, depth, head):
        out = head
        for name, content in files:
            if rng.chance(0.2):
                out += lfn(name.lower())
            if expected is not None and content:
                expected.append(content)
            c = store(content)
            out += entry(name, rng.pick(["TXT", "BIN"]), 0x20, c, len(content))
        if depth < 2 and rng.chance(0.5):
            mine = free.pop(0)
            sub = directory(fat_files(rng, rng.pick([1, 2, 15])), depth + 1,
                            entry(".", "", 0x10, mine, 0) + entry("..", "", 0x10, 0, 0))
            chain = [mine] + [free.pop(0) for _ in range(csize, len(sub), csize)]
            for i, c in enumerate(chain):
                fat[c] = chain[i + 1] if i + 1 < len(chain) else eoc
                clusters[c] = sub[i * csize:(i + 1) * csize].ljust(csize, b"\0")
            out += entry("DIR%d" % depth, "", 0x10, mine, 0)
        if rng.chance(0.3):
            out += b"\xe5" + entry("ELETED", "TXT", 0x20, 0, 10)[1:]
        return out

    root = directory(fat_files(rng), 0, entry("LABEL", "", 8, 0, 0))
    root = root[:max_root * 32 or csize]
    nsect = nclus * spc
    table = [0] * (fat_sectors * ss * 8 // version)
    for c, v in fat.items():
        table[c] = v
    table[0] = table[1] = eoc
    if version == 12:
        bits = 0
        for i, v in enumerate(table):
            bits |= v << (12 * i)
        raw = bits.to_bytes(len(table) * 12 // 8 + 1, "little")
    else:
        raw = struct.pack("<%d%s" % (len(table), "H" if version == 16 else "I"), *table)
    raw = raw[:fat_sectors * ss].ljust(fat_sectors * ss, b"\0")
    reserved = 1
    boot = (b"\xeb\x3c\x90" + b"MSDOS5.0" + struct.pack(
        "<HBHBHHBHHHII", ss, spc, reserved, 2, max_root, nsect, 0xf8,
        0 if version == 32 else fat_sectors, 32, 2, 0, 0))
    if version == 32:
        boot += struct.pack("<IHHIHH12s", fat_sectors, 0, 0, 2, 0, 0, b"")
    boot += struct.pack("<BBBI", 0x80, 0, 0x29, 0x12345678) + b"NO NAME    "
    boot += ("FAT%-5d" % version).encode()
    boot = boot.ljust(510, b"\0") + b"\x55\xaa"
    if version == 32:
        clusters[2] = root.ljust(csize, b"\0")
        root = b""
    else:
        root = root.ljust(max_root * 32, b"\0")
    data = b"".join(clusters.get(c, b"\0" * csize) for c in range(2, nclus))
    return boot + raw + raw + root + data


def gen_cab(rng, expected=None):
    """Cabinet file, stored or MSZIP; expected receives the content of each
    folder, and of each file"""
    nfold = rng.randrange(1, 4)
    folders = []
    files = []
    for i in range(nfold):
        method = rng.pick([0, 1])
        whole = b""
        for j in range(rng.randrange(1, 4)):
            data = payload(rng, 3000)
            files.append(struct.pack("<IIHIH", len(data), len(whole), i, 0x2a212a21, 0x20)
                         + b"f%d_%d.txt\0" % (i, j))
            if expected is not None and data:
                expected.append(data)
            whole += data
        blocks = []
        step = rng.pick([500, 1000, 32768])
        for pos in range(0, len(whole), step):
            part = whole[pos:pos + step]
            raw = part
            if method:
                prev = whole[max(0, pos - 32768):pos]
                args = (rng.pick([1, 6, 9]), zlib.DEFLATED, -15, 8, rng.pick([0, 4]))
                c = zlib.compressobj(*args, zdict=prev) if prev else zlib.compressobj(*args)
                raw = b"CK" + c.compress(part) + c.flush()
            blocks.append(struct.pack("<IHH", 0, len(raw), len(part)) + raw)
        folders.append((method, blocks))
    off_file = 36 + 8 * nfold
    pos = off_file + sum(map(len, files))
    table = b""
    for method, blocks in folders:
        table += struct.pack("<IHH", pos, len(blocks), method)
        pos += sum(map(len, blocks))
    head = b"MSCF" + struct.pack("<IIIIIBBHHHHH", 0, pos, 0, off_file, 0, 3, 1, nfold,
                                 len(files), 0, 1, 0)
    return head + table + b"".join(files) + b"".join(b"".join(b) for m, b in folders)


GENERATORS = {"cab": gen_cab,
              "fat12": lambda rng, expected=None: gen_fat(rng, expected, 12),
              "fat16": lambda rng, expected=None: gen_fat(rng, expected, 16),
              "fat32": lambda rng, expected=None: gen_fat(rng, expected, 32),
              "zip": gen_zip, "tar": gen_tar, "gzip": gen_gzip, "bzip2": gen_bzip2,
              "bplist": gen_bplist, "ar": gen_ar, "wav": gen_wav, "png": gen_png,
              "bmp": gen_bmp, "zlib": gen_zlib, "id3": gen_id3}
# parser ids of the generated documents
GENERATED_ID = {"cab": "cab", "fat12": "fat12", "fat16": "fat16", "fat32": "fat32", "zip": "zip", "tar": "tar", "gzip": "gzip", "bzip2": "bzip2",
                "bplist": "bplist", "ar": "unix_archive", "wav": "riff", "png": "png",
                "bmp": "bmp", "zlib": "zlib", "id3": "mpeg_audio"}
GENERATORS.update(gens.GENERATORS)
GENERATED_ID.update(gens.GENERATED_ID)
GENERATORS.update(gens2.GENERATORS)
GENERATED_ID.update(gens2.GENERATED_ID)


def of_facts(kind):
    """Generator of the documents of facts.py, without their facts"""
    return lambda rng: FACTS[kind](rng)[0]


FACTS = dict(facts.FACTS, **facts2.FACTS)
FACTS_ID = dict(facts.FACTS_ID, **facts2.FACTS_ID)
GENERATORS.update(("f." + kind, of_facts(kind)) for kind in FACTS)
GENERATED_ID.update(("f." + kind, pid) for kind, pid in FACTS_ID.items())
GENERATORS.update(facts2.PLAIN)
GENERATED_ID.update(facts2.PLAIN_ID)


# -------------------------------------------------------------------- damage

def gen_damage(rng, size, kind=None):
    """A list of mutations, as JSON."""
    kind = kind or rng.pick(["none", "cut", "flip", "zero", "ff", "insert", "delete",
                             "mix", "edge"])
    if kind == "none":
        return []
    if kind == "cut":
        if rng.chance(0.5):
            return [["cut", rng.randrange(1, size)] if size > 1 else ["cut", 1]]
        return [["cut", max(1, min(size, int(rng.expovariate(1 / 200))))]]
    if kind == "flip":
        return [["set", near(rng, size), rng.pick([0, 1, 0x7f, 0x80, 0xff,
                                                   rng.randrange(256)])]
                for _ in range(rng.randrange(1, 10))]
    if kind == "edge":
        # integer fields: extreme values
        return [["bytes", near(rng, size), rng.pick(
            ["ffffffff", "00000000", "7fffffff", "80000000", "ffff", "0000", "00010000",
             "ffffffffffffffff", "01000000", "0100000000000000"])]
            for _ in range(rng.randrange(1, 4))]
    if kind in ("zero", "ff"):
        return [["fill", rng.randrange(size), rng.pick([4, 16, 64, 512, 4096]),
                 0 if kind == "zero" else 255]]
    if kind == "insert":
        return [["insert", near(rng, size), rng.randbytes(rng.randrange(1, 9)).hex()]]
    if kind == "delete":
        return [["delete", near(rng, size), rng.randrange(1, 40)]]
    out = []
    for _ in range(rng.randrange(1, 4)):
        out += gen_damage(rng, size, rng.pick(["cut", "flip", "zero", "insert", "delete",
                                               "edge"]))
    return out


_ints = {}


def pattern(path):
    """Path without indexes: fields of a pattern play the same role"""
    return re.sub(r"\[\d+\]", "[]", path)


def int_fields(name, pid):
    """[(offset, size in bytes, little endian, value, pattern)] of integer fields of an
    undamaged document, for structured damage."""
    if name not in _ints:
        def find():
            quiet()
            from hachoir.core.endian import LITTLE_ENDIAN
            from hachoir.field import GenericInteger
            from hachoir.stream import StringInputStream
            root = parser_class(pid)(StringInputStream(load(name)))
            out = []
            stack = [iter([root])]
            n = 0
            while stack and n < 4000:
                try:
                    f = next(stack[-1])
                except Exception:
                    stack.pop()
                    continue
                n += 1
                if f.is_field_set:
                    stack.append(iter(f))
                elif isinstance(f, GenericInteger) and f.size in (8, 16, 24, 32, 64) \
                        and f.absolute_address % 8 == 0:
                    try:
                        if not isinstance(f.value, int):
                            continue
                        out.append((f.absolute_address // 8, f.size // 8,
                                    f.parent.endian is LITTLE_ENDIAN, f.value,
                                    pattern(f.path)))
                    except Exception:
                        pass
            return out
        try:
            _ints[name] = in_child(find)
        except Exception:
            _ints[name] = []
    return _ints[name]


def gen_int_damage(rng, ints):
    """Change the value of some integer fields"""
    out = []
    groups = {}
    for k, item in enumerate(ints):
        groups.setdefault(item[4], []).append(k)
    roles = sorted(groups)
    # links: tables where an item often is the index of the next one
    links = [(g, j) for g in roles for j, k in enumerate(groups[g])
             if ints[k][3] == j + 1 and len(groups[g]) > 8]
    if links and rng.chance(0.4):
        # make a loop
        g, j = links[min(len(links) - 1, int(rng.expovariate(0.1)))]
        off, n, little = ints[groups[g][j]][:3]
        value = max(0, j + rng.pick([0, 0, -1, -2, -j]))
        return [["bytes", off, value.to_bytes(n, "little" if little else "big").hex()]]
    for _ in range(rng.pick([1, 1, 2, 4])):
        if rng.chance(0.5):
            group = groups[rng.pick(roles)]
        else:
            group = groups[ints[rng.randrange(len(ints))][4]]
        j = rng.randrange(len(group))
        k = group[j]
        off, n, little, value, _ = ints[k]
        choice = rng.randrange(11)
        if choice == 0:
            value -= 1
        elif choice == 1:
            value += 1
        elif choice == 2:
            value = 0
        elif choice == 3:
            value = (1 << (8 * n)) - 1
        elif choice == 4:
            value = 1 << (8 * n - 1)
        elif choice == 5:
            value = ints[rng.randrange(len(ints))][3]
        elif choice == 6:
            # of the fields near of it
            value = ints[max(0, min(len(ints) - 1, k + rng.randrange(-6, 7)))][3]
        elif choice == 7:
            value = ints[rng.randrange(len(ints))][0]
        elif choice in (8, 9):
            # links of a chain: to itself, to the previous one...
            value = j + rng.pick([0, 0, -1, 1, -2, 2])
        else:
            value = rng.randrange(0, 300)
        value &= (1 << (8 * n)) - 1
        out.append(["bytes", off, value.to_bytes(n, "little" if little else "big").hex()])
    return out


def near(rng, size):
    """Headers are where damage matters"""
    k = rng.randrange(5)
    if k < 3:
        return min(size - 1, int(rng.expovariate(1 / rng.pick([20, 100, 500]))))
    if k == 3:
        return max(0, size - 1 - int(rng.expovariate(1 / 100)))
    return rng.randrange(size)


def damage(data, muts):
    for mut in muts:
        if not data:
            break
        k, a = mut[0], mut[1]
        if k == "cut":
            data = data[:max(1, a)]
        elif k == "set":
            a = min(a, len(data) - 1)
            data = data[:a] + bytes([mut[2]]) + data[a + 1:]
        elif k == "bytes":
            new = bytes.fromhex(mut[2])
            data = data[:a] + new + data[a + len(new):]
        elif k == "fill":
            n = len(data[a:a + mut[2]])
            data = data[:a] + bytes([mut[3]]) * n + data[a + n:]
        elif k == "insert":
            data = data[:a] + bytes.fromhex(mut[2]) + data[a:]
        elif k == "delete":
            data = data[:a] + data[a + mut[2]:]
    return data or b"\0"


def count_damage(ctx, muts):
    names = {"cut": "truncation", "set": "corrupted_byte", "bytes": "corrupted_word",
             "fill": "erased_block", "insert": "inserted_bytes", "delete": "lost_bytes"}
    for mut in muts:
        ctx.fault(names[mut[0]])


# -------------------------------------------------------------------- parsing

def quiet():
    from hachoir.core import config
    from hachoir.core.log import log
    config.quiet = True
    log.use_print = False
    log.use_buffer = False


def parser_class(pid):
    from hachoir.parser import HachoirParserList
    for cls in HachoirParserList.getInstance():
        if cls.PARSER_TAGS["id"] == pid:
            return cls
    raise KeyError(pid)


def parser_ids():
    from hachoir.parser import HachoirParserList
    return [cls.PARSER_TAGS["id"] for cls in HachoirParserList.getInstance()]


def in_child(func, *args):
    """Run func in a forked child: no side effect here. Returns its (JSON)
    result. The child inherits the step counter."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                res = ["ok", func(*args)]
            except Violation as v:
                res = ["violation", v.kind, v.msg]
            except BaseException as err:
                res = ["error", type(err).__name__, str(err)]
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        chunks.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(b"".join(chunks))
    if res[0] == "violation":
        raise Violation(res[1], res[2])
    if res[0] == "error":
        if res[1] == "StepBudget":
            from simkit.core import StepBudget
            raise StepBudget()
        raise RuntimeError("child: %s %s" % (res[1], res[2]))
    return res[1]


def guess_corpus():
    """{document: id of its parser or None}, computed in a forked child."""
    def guess():
        quiet()
        from hachoir.parser.guess import guessParser
        from hachoir.stream import StringInputStream
        out = {}
        for name in corpus_names():
            parser = guessParser(StringInputStream(
                load(name), tags=[("filename", name)]))
            out[name] = parser.PARSER_TAGS["id"] if parser is not None else None
        return out
    ids = in_child(guess)
    for name in corpus_names():
        load(name)
    return ids


class Docs:
    """Chooses documents. Small files are preferred."""

    def __init__(self):
        self.ids = {n: i for n, i in guess_corpus().items() if i}
        names = sorted(self.ids)
        # one entry per file, weight decreasing with its size
        self.weights = []
        for n in names:
            size = len(load(n))
            self.weights.append((4 if size < 12000 else 3 if size < 110000 else 1.5, n))
        self.by_parser = {}
        for n, i in self.ids.items():
            self.by_parser.setdefault(i, []).append(n)

    def pick(self, rng, generated=0.25, kinds=None):
        """(name, parser id)"""
        if rng.chance(generated):
            kind = rng.pick(kinds or sorted(GENERATORS))
            return "gen:%s:%d" % (kind, rng.randrange(1000)), GENERATED_ID[kind]
        if rng.chance(0.5):
            name = rng.pick(sorted(self.by_parser[rng.pick(sorted(self.by_parser))]))
        else:
            name = rng.weighted(self.weights)
        return name, self.ids[name]


# ---------------------------------------------------------------------- dump

VALUE_LIMIT = 1 << 16        # bits: longer values are not read


def digest(x):
    return hashlib.sha1(x.encode("utf8", "backslashreplace")).hexdigest()[:16]


def clean(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else "%s...%s" % (s[:n], digest(s))


def attr(f, name):
    try:
        return clean(getattr(f, name))
    except Exception as err:
        return "EXC %s" % type(err).__name__


def entry(f):
    """Observable facts of a field"""
    try:
        size = f.size
    except Exception as err:
        size = "EXC %s" % type(err).__name__
    isset = bool(f.is_field_set)
    value = None
    if not isset and isinstance(size, int) and size <= VALUE_LIMIT:
        value = attr(f, "value")
    return [f.path, type(f).__name__, f.absolute_address, size, value,
            None if isset or value is None else attr(f, "display"),
            attr(f, "description")]


SETTLE = 5000


def dump(root, limit, settle=False):
    """Depth first listing of the tree: sequential access. An exception of an
    iterator is an entry too. settle: the fields of a set are all read (up to
    SETTLE) before they are listed, because a set which is found to be too
    short or too long is repaired when its parser ends."""
    out = []
    stack = [iter([root])]
    while stack and len(out) < limit:
        try:
            f = next(stack[-1])
        except StopIteration:
            stack.pop()
            continue
        except Exception as err:
            out.append(["RAISED", type(err).__name__, clean(str(err))])
            stack.pop()
            continue
        out.append(entry(f))
        if f.is_field_set:
            if settle:
                try:
                    f.readFirstFields(SETTLE)
                except Exception as err:
                    out.append(["RAISED", type(err).__name__, clean(str(err))])
                    continue
            stack.append(iter(f))
    return out


def compare(what, want, got):
    if want == got:
        return
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation("tree-differs", "%s: entry %d of %d/%d: %s instead of %s"
                            % (what, i, len(got), len(want), short(b, 500), short(a, 500)))
    i = min(len(want), len(got))
    raise Violation("tree-differs", "%s: %d entries instead of %d; then %s / %s" % (
        what, len(got), len(want), short(got[i:i + 1], 500), short(want[i:i + 1], 500)))


# --------------------------------------------------------- access schedules

NOPS = 22
NAMES = ["nothing", "header", "data", "size", "signature", "nothing[0]", "raw[0]",
         "field[1]", "chunk[2]", "item[0]", "entry[1]", "content", "file[0]"]


def gen_access(rng, n):
    paths = rng.pick([0, 0.1, 0.5])
    return [[rng.pick([20, 21]) if rng.chance(paths) else rng.randrange(NOPS),
             rng.randrange(1000), rng.randrange(1000)] for _ in range(n)]


class Access:
    """Executes a schedule of accesses on one or several trees: what a user
    interface, an extractor and a search may do in any order."""

    def __init__(self, roots, ctx, on_error=None, paths=()):
        self.pool = list(roots)
        self.iters = []
        self.histories = []     # (field set, names yielded) of each iteration
        # known paths of the document, by role
        self.paths = {}
        for path in paths:
            self.paths.setdefault(pattern(path), []).append(path)
        self.roles = sorted(self.paths)
        self.ctx = ctx
        self.leaves = []
        self.on_error = on_error

    def found(self, f):
        if f.is_field_set:
            if len(self.pool) < 400:
                self.pool.append(f)
        else:
            if len(self.leaves) < 400:
                self.leaves.append(f)

    def path_of(self, a, b):
        group = self.paths[self.roles[a % len(self.roles)]]
        return group[b * 7 % len(group)]

    def iterate(self, fs):
        """Start an iteration and record what it yields"""
        names = []

        def recorded():
            for f in fs:
                names.append(f.name)
                yield f
        self.histories.append((fs, names))
        self.iters.append(recorded())

    def check_histories(self):
        """An iteration yields the fields of the set in order, without missing
        any, whatever happens while it is suspended. (Its last fields may be
        deleted later, when a damaged set is repaired.)"""
        for fs, names in self.histories:
            final = [f.name for f in itertools.islice(fs, 2 * len(names) + 1000)]
            index = {n: i for i, n in enumerate(final)}
            seen = [index[n] for n in names if n in index]
            if seen != list(range(len(seen))):
                miss = [n for n in final[:max(seen) + 1] if n not in names]
                raise Violation("iteration-differs", "iteration of %s: missed %s, yielded %s"
                                % (fs.path, short(miss, 200), short(names, 300)))

    def do(self, op):
        code, a, b = op
        self.ctx.ops += 1
        f = self.pool[a % len(self.pool)]
        try:
            self.ctx.event(code, f.path)
            self.access(code, f, b)
        except StopIteration:
            pass
        except Exception as err:
            if self.on_error:
                self.on_error(code, f, err)

    def access(self, code, f, b):
        if code == 0:
            self.iterate(f)
        elif code in (1, 2, 3):
            if self.iters:
                it = self.iters[b % len(self.iters)]
                for _ in range((1, 3, 20)[code - 1]):
                    self.found(next(it))
            else:
                self.iterate(f)
        elif code == 4:
            f.size
        elif code == 5:
            len(f)
        elif code == 6:
            if f.current_length:
                self.found(f.getField(b % f.current_length))
        elif code == 7:
            f.readMoreFields(1 + b % 9)
        elif code == 8:
            f.description
        elif code == 9:
            if b % 3 == 0:
                f[b % 30 if b % 2 else b % 5]
            else:
                self.found(f.getField(b % 12, const=False))
        elif code == 10:
            self.found(f[NAMES[b % len(NAMES)]])
        elif code == 11:
            if f.current_length:
                # the name of a known field, seen from another one
                g = f.getField(b % f.current_length)
                base = g.name.split("[")[0]
                self.found(f["%s[%d]" % (base, b % 7)])
        elif code == 12:
            if f.current_length:
                g = f.getField(b % f.current_length)
                arr = f.array(g.name.split("[")[0])
                if b % 3 == 0:
                    len(arr)
                elif b % 3 == 1:
                    b % 5 in arr
                else:
                    for i, x in enumerate(arr):
                        if i > b % 4:
                            break
        elif code == 13:
            if self.leaves:
                g = self.leaves[b % len(self.leaves)]
                if g.size <= VALUE_LIMIT:
                    (lambda: g.value, lambda: g.display, lambda: g.raw_display,
                     lambda: g.description, lambda: str(g))[b % 5]()
        elif code == 14:
            f.getFieldByAddress(b * 8, feed=bool(b % 2))
        elif code == 15:
            f.readFirstFields(b % 20)
        elif code == 16:
            if self.iters:
                del self.iters[b % len(self.iters)]
        elif code == 17:
            if "/" + NAMES[b % len(NAMES)] in f:
                self.ctx.probe("access.contains")
        elif code == 18:
            import gc
            if b % 4 == 0:
                gc.collect()
            f.value
        elif code == 19:
            f = f.root
            f.size, f.description, f.mime_type, f.content_size, f.filename_suffix
        elif code in (20, 21):
            # direct access to a field which was seen in another parse
            if self.paths:
                path = self.path_of(a, b)
                g = f.root[path]
                self.ctx.probe("access.path")
                if code == 20:
                    self.found(g)
                elif g.is_field_set:
                    self.found(g)
                    g.readFirstFields(1 + b % 5)
                elif g.size <= VALUE_LIMIT:
                    self.found(g)
                    g.value
