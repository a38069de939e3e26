"""E02: hachoir-strip on a simulated disk, against a reference stripper."""
import contextlib
import io
import struct
import sys
import zlib

from simkit import docs, seams
from simkit.core import Violation, make_rng, short
from simkit.fs import SimFS, gen_faults
from props.trees import DocProp

LEVELS = ["metadata", "useless", "index"]


def riff_chunk(tag, data):
    return tag + struct.pack("<I", len(data)) + data + (b"\0" if len(data) % 2 else b"")


def riff_list(sub, chunks):
    return riff_chunk(b"LIST", sub + b"".join(chunks))


def some_info(rng):
    return riff_list(b"INFO", [riff_chunk(rng.pick([b"INAM", b"IART", b"ICMT", b"ISFT"]),
                                          docs.words(rng, rng.randrange(1, 30)) + b"\0")
                               for _ in range(rng.randrange(1, 4))])


def junk(rng):
    return riff_chunk(b"JUNK", bytes(rng.randrange(1, 80)))


def gen_riff(rng):
    extra = lambda: rng.pick([[], [], [some_info(rng)], [junk(rng)], [junk(rng), some_info(rng)],
                              [riff_chunk(b"abcd", rng.randbytes(rng.randrange(1, 20)))]])
    if rng.chance(0.4):
        chunks = [riff_chunk(b"fmt ", struct.pack("<HHIIHH", 1, 1, 8000, 8000, 1, 8))]
        if rng.chance(0.5):
            chunks.append(riff_chunk(b"fact", struct.pack("<I", rng.randrange(1 << 20))))
        chunks += extra()
        chunks.append(riff_chunk(b"data", rng.randbytes(rng.randrange(1, 300))))
        chunks += extra()
        kind = b"WAVE"
    else:
        avih = struct.pack("<10I", 40000, 1000, 0, rng.getrandbits(32), 20, 0, 1, 0, 64, 48) \
            + bytes(16)
        strh = b"vidsXVID" + struct.pack("<IHHIIIIIIIIHHHH", 0, 0, 0, 0, 1, 25, 0, 20, 0, 0, 0,
                                         0, 0, 64, 48)
        strf = struct.pack("<IiiHH4sIiiII", 40, 64, 48, 1, 24, b"XVID", 0, 0, 0, 0, 0)
        stream = riff_list(b"strl", [riff_chunk(b"strh", strh), riff_chunk(b"strf", strf)]
                           + rng.pick([[], [], [junk(rng)]]))
        hdrl = riff_list(b"hdrl", [riff_chunk(b"avih", avih), stream]
                         + rng.pick([[], [], [junk(rng)]]))
        chunks = [hdrl] + extra()
        chunks.append(riff_list(b"movi", [riff_chunk(b"00dc", rng.randbytes(rng.randrange(1, 60)))
                                          for _ in range(rng.randrange(1, 5))]
                                + rng.pick([[], [junk(rng)]])))
        if rng.chance(0.6):
            chunks.append(riff_chunk(b"idx1", b"".join(
                b"00dc" + struct.pack("<III", 16, i * 68, 60)
                for i in range(rng.randrange(1, 5)))))
        chunks += extra()
        kind = b"AVI "
    body = kind + b"".join(chunks)
    return b"RIFF" + struct.pack("<I", len(body)) + body


def gen_png(rng):
    data = docs.gen_png(rng)
    ends = [33]
    for _ in range(rng.randrange(4)):
        c = rng.pick([docs.chunk(b"tEXt", b"Author\0" + docs.words(rng, 20)),
                      docs.chunk(b"tIME", struct.pack(">H5B", 2001, 2, 3, 4, 5, 6)),
                      docs.chunk(b"zTXt", b"Title\0\0" + zlib.compress(docs.words(rng, 20))),
                      docs.chunk(b"pHYs", struct.pack(">IIB", 100, 100, 1))])
        if b"tIME" in data and c[4:8] == b"tIME":
            continue
        at = rng.pick([ends[0], len(data) - 12])
        data = data[:at] + c + data[at:]
    return data


def gen_jpeg(rng):
    data = docs.load(rng.pick(["green_fire.jpg", "jpeg.exif.photoshop.jpg", "usa_railroad.jpg",
                               "gps.jpg"]))
    at = 2 + 2 + struct.unpack(">H", data[4:6])[0]
    new = b""
    for _ in range(rng.randrange(4)):
        new += rng.pick([b"\xff\xfe" + segment(docs.words(rng, 30)),
                         b"\xff\xee" + segment(b"Adobe\0\x64\0\0\0\0\1")])
    if new.count(b"Adobe\0") > 1:
        return data
    return data[:at] + new + data[at:]


def segment(data):
    return struct.pack(">H", len(data) + 2) + data


def gen_mp3(rng):
    data = docs.gen_id3(rng)
    if rng.chance(0.4):
        data = data[data.index(b"\xff\xfb\x90\x00"):]
    if rng.chance(0.6):
        data += b"TAG" + (docs.words(rng, 30) + bytes(124))[:124] + b"\x07"
    return data


def gen_au(rng):
    info = rng.pick([b"", b"", docs.words(rng, 20) + b"\0" * rng.randrange(1, 9)])
    audio = rng.randbytes(rng.randrange(1, 500))
    return b".snd" + struct.pack(">5I", 24 + len(info), len(audio), 1, 8000, 1) + info + audio \
        + rng.pick([b"", b"", rng.randbytes(5)])


KINDS = {"riff": (gen_riff, "riff"), "png": (gen_png, "png"), "jpeg": (gen_jpeg, "jpeg"),
         "mp3": (gen_mp3, "mpeg_audio"), "au": (gen_au, "sun_next_snd"),
         "tar": (docs.gen_tar, "tar"), "other": (docs.gen_bmp, None),
         "noise": (lambda rng: rng.randbytes(rng.randrange(1, 90)), None)}
FILES = ["audio_8khz_8bit_ulaw_4s39.au", "angle-bear-48x48.ani", "cd_0008_5C48_1m53s.cda",
         "kde_click.wav", "logo-kubuntu.png", "png_331x90x8_truncated.png",
         "sheep_on_drugs.mp3", "small_text.tar", "smallville.s03e02.avi", "gps.jpg",
         "jpeg.exif.photoshop.jpg", "ftp-0.17-537.i586.rpm"]


class Reference:
    """What the stripped document must be, from the addresses and names of the
    fields of the original."""

    def __init__(self, data, level):
        from hachoir.parser.guess import guessParser
        from hachoir.stream import StringInputStream
        self.data = data
        self.level = level
        self.cuts = []
        self.patches = []
        self.known = False
        self.tar = False
        root = guessParser(StringInputStream(data))
        if root is None:
            return
        self.root = root
        rule = getattr(self, "strip_" + type(root).__name__, None)
        if rule:
            self.known = True
            rule(root)

    def span(self, f):
        assert f.absolute_address % 8 == 0 and f.size % 8 == 0
        return f.absolute_address // 8, (f.absolute_address + f.size) // 8

    def cut(self, f):
        a, b = self.span(f)
        self.cuts.append((a, b))
        return b - a

    def patch(self, f, value, order):
        a, b = self.span(f)
        self.patches.append((a, value.to_bytes(b - a, order)))

    def strip_PngFile(self, root):
        for f in root:
            if "metadata" in self.level and (f.name.startswith("text[") or f.name == "time"):
                self.cut(f)

    def strip_JpegFile(self, root):
        for f in root:
            if "metadata" in self.level and (f.name.startswith("comment")
                                             or f.name in ("photoshop", "exif", "adobe")):
                self.cut(f)

    def strip_MpegAudioFile(self, root):
        for f in root:
            if "metadata" in self.level and f.name in ("id3v1", "id3v2"):
                self.cut(f)

    def strip_AuFile(self, root):
        for f in root:
            if "metadata" in self.level and f.name == "info":
                n = self.cut(f)
                self.patch(root["data_ofs"], root["data_ofs"].value - n, "big")

    def strip_RiffFile(self, root):
        names = set()
        if "useless" in self.level:
            names.add("nb_sample")
        if "metadata" in self.level:
            names.add("info")
        if "index" in self.level:
            names.add("index")
            if "/headers/avi_hdr/has_index" in root:
                f = root["/headers/avi_hdr/has_index"]
                a = f.absolute_address
                x = self.data[a // 8] & ~(1 << (a % 8))
                self.index_bit = (a // 8, bytes([x]))
        n = self.riff(root, names)
        if n:
            self.patch(root["filesize"], root["filesize"].value - n, "little")
            if hasattr(self, "index_bit"):
                self.patches.append(self.index_bit)

    def riff(self, fs, names):
        total = 0
        for f in fs:
            tag = f["tag"].value if f.is_field_set and "tag" in f else None
            if f.name in names or (tag == "JUNK" and "useless" in self.level):
                total += self.cut(f)
            elif tag == "LIST" and f.name != "movie":
                n = self.riff(f, names)
                if n:
                    self.patch(f["size"], f["size"].value - n, "little")
                total += n
        return total

    def strip_TarFile(self, root):
        if "metadata" not in self.level:
            return
        for f in root:
            if not f.name.startswith("file["):
                continue
            a, b = self.span(f)
            head = bytearray(self.data[a:a + 512])
            head[108:116] = head[116:124] = b"0000000\0"
            head[136:148] = b"00000000000\0"
            head[265:297] = head[297:329] = bytes(32)
            head[148:156] = b" " * 8
            # any form of the octal number is right, see same()
            head[148:156] = b"%06o\0 " % sum(head)
            self.patches.append((a, bytes(head)))
            self.tar = True

    @property
    def touched(self):
        return bool(self.cuts or self.patches)

    def expected(self):
        data = bytearray(self.data)
        for a, new in self.patches:
            data[a:a + len(new)] = new
        for a, b in sorted(self.cuts, reverse=True):
            del data[a:b]
        return bytes(data)

    def same(self, got):
        want = self.expected()
        if self.tar and len(got) == len(want):
            # the text of the check sums may be formatted in another way
            got = bytearray(got)
            for a, new in self.patches:
                try:
                    if int(bytes(got[a + 148:a + 156]).strip(b" \0"), 8) \
                            == int(new[148:154], 8):
                        got[a + 148:a + 156] = new[148:156]
                except ValueError:
                    pass
            got = bytes(got)
        return got == want, want


class E02(DocProp):
    id = "E02"
    title = "A stripped document is the original one without the removed fields"
    method = ("seeded command lines of hachoir-strip on a simulated disk with faults, against "
              "a reference stripper")
    runs = {"quick": 5000, "thorough": 100000}
    lists = ("files", "faults")
    rule = ("One run: hachoir-strip is run with 1 to 3 documents (generated with removable "
            "parts, corpus, or unknown) of a simulated disk, with random levels and faults of "
            "the disk. The files on the disk and the exit status are compared with those of a "
            "reference. Non-trivial: a stripped file was compared.")
    assumptions = ["the fields to remove are recognised by their names in a parse of the "
                   "original (parsing is the subject of F01 to F03)",
                   "when reading an original fails, only the originals are checked"]
    real = DocProp.real + ["hachoir.strip", "hachoir.editor", "hachoir.stream.output"]
    stubs = ["disk (simulated file system)", "command line, standard output"]

    def gen(self, rng, index, tier):
        files = []
        for _ in range(rng.pick([1, 1, 2, 3])):
            if rng.chance(0.2):
                files.append(["file", rng.pick(FILES)])
            else:
                files.append([rng.pick(sorted(KINDS)), rng.randrange(1 << 30)])
        levels = [x for x in LEVELS if rng.chance(0.6)]
        if rng.chance(0.4):
            levels = LEVELS
        faults = gen_faults(rng, rng.pick([["write"], ["write", "open", "close"],
                                           ["write", "open", "close", "read"]])) \
            if rng.chance(0.5) else []
        return {"files": files, "levels": levels, "faults": faults,
                "space": rng.randrange(3000) if rng.chance(0.15) else None,
                "quiet": rng.chance(0.5), "again": rng.chance(0.3)}

    def content(self, item):
        kind, x = item
        if kind == "file":
            return docs.load(x)
        return KINDS[kind][0](make_rng(x, kind))

    def run(self, plan, ctx):
        import hachoir.strip
        docs.quiet()
        disk = SimFS(ctx, plan["faults"], plan["space"])
        refs = []
        for i, item in enumerate(plan["files"]):
            data = self.content(item)
            path = "/sim/doc%d" % i
            disk.write_file(path, data)
            refs.append((path, Reference(data, plan["levels"])))
        code = self.command(plan, ctx, disk, [p for p, _ in refs])
        read_fault = any(op == "read" and kind == "eio" for op, _, kind in disk.fired)
        for path, ref in refs:
            if disk.content(path) != ref.data:
                raise Violation("original-modified", "%s (%s)" % (path, ref.root.mime_type))
        if read_fault:
            ctx.probe("read.error")
            return
        hard = [x for x in disk.fired if x[2] != "short"] or plan["space"] is not None
        for path, ref in refs:
            exists = path + ".new" in disk.files
            if exists and not ref.touched:
                raise Violation("unexpected-output", "%s: nothing to strip, but .new exists"
                                % path)
            if code != 0 and hard:
                continue
            if ref.touched:
                if not exists:
                    raise Violation("missing-output", "%s: exit status %s, no output" % (
                        path, code))
                got = disk.content(path + ".new")
                same, want = ref.same(got)
                if not same:
                    i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]),
                             min(len(got), len(want)))
                    raise Violation("wrong-output", "%s (%s, levels %s), exit status %s: %d "
                                    "bytes instead of %d, first difference at %d: %s instead "
                                    "of %s" % (path, type(ref.root).__name__, plan["levels"],
                                               code, len(got), len(want), i,
                                               short(got[i:i + 16]), short(want[i:i + 16])))
                ctx.probe("compared." + type(ref.root).__name__)
                ctx.probe("compared")
        if not hard:
            ok = all(ref.known for _, ref in refs)
            if (code == 0) != (ok or not plan["levels"]):
                raise Violation("exit-status", "%s, known formats: %s" % (
                    code, [r.known for _, r in refs]))
        if disk.handles_open and code == 0:
            if any(h.writable() for h in disk.handles_open):
                raise Violation("not-closed", "an output is still open")
        ctx.state(*[type(getattr(r, "root", None)).__name__ for _, r in refs],
                  tuple(plan["levels"]), code)
        if plan["again"] and code == 0:
            # the stripped document has nothing left to strip
            disk.enabled = False
            for path, ref in refs:
                if not ref.touched or ref.tar:
                    continue
                code = self.command(plan, ctx, disk, [path + ".new"])
                if code != 0 or path + ".new.new" in disk.files:
                    # an unaligned or truncated original may be different
                    if ref.root.size == len(ref.data) * 8 and ref.root.mime_type \
                            and Reference(ref.expected(), plan["levels"]).touched is False:
                        raise Violation("strip-twice", "%s: status %s" % (path, code))
                ctx.probe("stripped.again")

    def command(self, plan, ctx, disk, paths):
        import hachoir.strip
        out = io.StringIO()
        argv = ["hachoir-strip"]
        if sorted(plan["levels"]) != sorted(LEVELS) or plan["again"]:
            argv.append("--strip=" + ",".join(plan["levels"]))
        if plan["quiet"]:
            argv.append("--quiet")
        argv += paths
        ctx.op(*argv)
        old = sys.argv
        seams.env.fs = disk
        try:
            sys.argv = argv
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                hachoir.strip.main()
            code = 0
        except SystemExit as err:
            code = 0 if err.code is None else err.code
        except OSError as err:
            ctx.event("OSError", str(err))
            code = 1
            if not disk.fired and plan["space"] is None:
                raise Violation("exception", repr(err)) from err
        except Violation:
            raise
        except Exception as err:
            if any(kind == "eio" or op == "open" for op, _, kind in disk.fired) \
                    and type(err).__name__ == "InputStreamError":
                return 1
            raise Violation("exception", "%s: %r; %s" % (
                plan["files"], err, short(out.getvalue()[-300:]))) from err
        finally:
            sys.argv = old
            seams.env.fs = None
        ctx.event(code, out.getvalue())
        return code

    def nontrivial(self, plan, summary):
        return summary["probes"].get("compared", 0) > 0
