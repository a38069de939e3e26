"""U01: hachoir-urwid, with a simulated terminal and keyboard."""
import json
import os
import re
import warnings

from simkit import docs, seams
from simkit.core import Violation, short
from simkit.fs import DIRECTORY, ROOT, SimFS, gen_faults
from props.metadata import run_main
from props.trees import DocProp, build

PATH = ROOT + "/doc"
OUT = ROOT + "/out"
MOVES = ["up", "down", "down", "down", "enter", "enter", "right", "left", "home", "end",
         "page up", "page down", "a", "b", "h", "s", "t", "v", "d"]
FLAGS = {"a": "absolute", "b": "hex", "h": "human", "s": "size", "t": "type", "v": "value",
         "d": "description"}


class Node:
    def __init__(self, field, parent, depth):
        self.field = field
        self.parent = parent
        self.depth = depth
        self.children = []
        self.next = None
        self.prev = None
        self.index = None
        self.texts = {}

    def text(self, flags, charset):
        """What follows the mark of this field"""
        from hachoir.core.tools import humanBitSize, humanFilesize, makePrintable
        key = tuple(sorted(flags.items()))
        if key in self.texts:
            return self.texts[key]
        f = self.field
        name = f.name if self.depth else "file:" + PATH
        if f.size:
            address = f.absolute_address if flags["absolute"] else f.address
            text = ("%04x" if flags["hex"] else "%d") % (address // 8)
            if address % 8 or f.size % 8:
                text += ".%d" % (address % 8)
            text += ") " + name
        else:
            text = "-> " + name
        if flags["value"] and f.hasValue():
            text += "= %s" % (f.display if flags["human"] else f.raw_display)
        if f.description and flags["description"]:
            text += ": " + (f.description if flags["human"]
                            else makePrintable(f.description, "ASCII"))
        extra = []
        if flags["type"]:
            extra.append(f.getFieldType())
        if flags["size"] and f.size:
            extra.append(humanBitSize(f.size) if f.size % 8 else
                         humanFilesize(f.size // 8) if flags["human"] else
                         "%d bytes" % (f.size // 8))
        if extra or flags["size"] and f.size:
            text += " (%s)" % ", ".join(extra)
        smart = flags["human"] or not (flags["value"] and f.hasValue())
        text = makePrintable(text, charset, smart=smart)
        self.texts[key] = text
        return text

    def following(self):
        """Next field in the document, out of this one, None at the end"""
        node = self
        while node and not node.next:
            node = node.parent
        return node.next if node else None


class Tree:
    """All the fields of a document, in order"""

    def __init__(self, root, limit):
        self.nodes = []
        self.whole = True
        self.limit = limit
        self.root = self.add(root, None, 0)

    def add(self, field, parent, depth):
        node = Node(field, parent, depth)
        node.index = len(self.nodes)
        self.nodes.append(node)
        if field.is_field_set:
            for f in field:
                if len(self.nodes) > self.limit:
                    self.whole = False
                    break
                child = self.add(f, node, depth + 1)
                if node.children:
                    node.children[-1].next = child
                    child.prev = node.children[-1]
                node.children.append(child)
        return node


class Screen:
    """Terminal: gives the keys of the plan, keeps what is displayed"""
    sim = None

    def register_palette(self, palette):
        pass

    def run_wrapper(self, func, *args, **kw):
        return func(*args, **kw)

    def get_cols_rows(self):
        return tuple(self.sim.size)

    def get_input(self, raw_keys=False):
        return self.sim.keys()

    def draw_screen(self, size, canvas):
        self.sim.draw(size, canvas)


class Session:
    """One use of the browser"""

    def __init__(self, plan, ctx, disk, tree, data):
        self.plan = plan
        self.ctx = ctx
        self.disk = disk
        self.tree = tree
        self.data = data
        self.size = list(plan["size"])
        self.todo = list(plan["ops"])
        self.pending = []
        self.prompt = False
        self.active = None
        self.focused = None
        self.start = 0
        self.flags = {"absolute": False, "hex": False, "human": True, "size": plan["show_size"],
                      "type": False, "value": plan["show_value"], "description": True}
        # the tree tab stays as it is while the others are used
        self.draws = 0
        self.checked = 0
        self.saves = []
        self.quit = 0
        self.frozen = False

    # ---------------------------------------------------------- keyboard
    def keys(self):
        if self.pending:
            if self.prompt:
                keys = self.pending.pop(0)
                if keys == "save":
                    name, raw = self.pending.pop(0)
                    path = OUT + "/" + name
                    self.saves.append([path, raw, self.focused, path in self.disk.files,
                                       self.copy(path)])
                    keys = list(name) + ["enter"]
                return keys
            self.pending = []
        if self.prompt:
            return ["esc"]
        while self.todo:
            op = self.todo.pop(0)
            self.ctx.op(*op)
            if op[0] == "keys" and self.plan["profile"] and len(op[1]) > 1:
                # drawn after each key
                self.todo[:0] = [["keys", [k]] for k in op[1]]
                continue
            if op[0] == "keys":
                if self.active == "root":
                    for k in op[1]:
                        if k == "right":
                            self.start += 1
                        elif k == "left":
                            self.start = max(0, self.start - 1)
                        elif k in FLAGS:
                            self.flags[FLAGS[k]] = not self.flags[FLAGS[k]]
                return op[1]
            if op[0] == "resize":
                self.size = list(op[1])
                return ["window resize"]
            if op[0] == "save":
                self.pending = ["save", [op[1], op[2]]]
                return ["ctrl e" if op[2] else "ctrl x"]
            if op[0] == "type":
                self.pending = [op[2]]
                return ["ctrl e" if op[1] else "ctrl x"]
            if op[0] == "log":
                from hachoir.core import error
                getattr(error, op[1])(op[2])
                return ["shift f9"]
        self.quit += 1
        if self.quit > 5:
            raise Violation("no-progress", "'q' does not end the browser")
        return ["q"]

    # ------------------------------------------------------------ screen
    def draw(self, size, canvas):
        self.draws += 1
        cols, rows = size
        if list(size) != self.size:
            raise Violation("size", "%s instead of %s" % (size, self.size))
        content = [[(a, t) for a, cs, t in row] for row in canvas.content()]
        if len(content) != rows or canvas.cols() != cols or canvas.rows() != rows:
            raise Violation("size", "%d rows of %d columns, the terminal is %s" % (
                canvas.rows(), canvas.cols(), size))
        texts = [b"".join(t for _, t in row).decode("utf8", "replace") for row in content]
        bars = [k for k, row in enumerate(content) if any(a == "sep" for a, _ in row)]
        self.prompt = any(t.startswith("save field to: ") for t in texts)
        if self.prompt:
            return
        tab = "".join(t.decode("utf8", "replace") + " " for k in bars for a, t in content[k]
                      if a == "focus").split()
        self.active = " ".join(tab[1:])
        if self.active != "root" or cols < 50:
            self.focused = None
            return
        self.check_rows(texts[:bars[0]], content[:bars[0]], cols)

    def check_rows(self, rows, content, cols):
        self.focused = None
        focus = [k for k, row in enumerate(content)
                 if any(a == "focus" and t.strip() for a, t in row)]
        full = [k for k, t in enumerate(rows) if t.strip()]
        n = len(full)
        if n and self.start == 0 and full != list(range(n)):
            raise Violation("rows", "empty rows between rows: %s" % short(rows))
        if self.start or not n:
            # scrolled rows may be empty
            n = max(full) + 1 if full else 0
        if len(focus) > 1 or n and not focus and self.start == 0:
            raise Violation("focus", "rows %s have the focus: %s" % (focus, short(rows)))
        if self.frozen or not n:
            return
        states = None
        back = []
        for k in range(n):
            found = self.candidates(rows[k].rstrip(), cols)
            if found is None:
                # text which is not compared
                found = [(node, mark) for node in self.tree.nodes for mark in "-+ ."]
            if states is not None:
                found = [(node, mark) for node, mark in found
                         if any(self.follows(x, m, node) for x, m in states)]
            if not found:
                raise Violation("wrong-row", "row %d is %r, after %s: it is not the text of "
                                "a field at this place (flags %s)" % (
                                    k, rows[k], short(rows[max(0, k - 2):k]), self.flags))
            states = found
            back.append(found)
        if n < len(rows) and not any(self.last(x, m) for x, m in states) and self.start == 0:
            raise Violation("missing-rows", "nothing after %r" % rows[n - 1])
        if focus and self.start == 0:
            self.focused = sorted({node.index for node, _ in back[focus[0]]})
        self.checked += n

    def candidates(self, row, cols):
        out = []
        for node in self.tree.nodes:
            d = node.depth
            marks = ["-", "+"] if node.field.is_field_set else [" "]
            for mark in marks:
                if d:
                    text = " " * (3 * d - 2) + mark + " " + node.text(self.flags, "UTF-8")
                else:
                    text = node.text(self.flags, "UTF-8")
                text = text[self.start:]
                if not text.isascii() and text[:len(row)] != row:
                    # characters which may be wide
                    if not row.isascii() or len(text) >= cols:
                        return None
                if text[:cols].rstrip() == row:
                    out.append((node, mark))
                else:
                    # raw value: a set which is being read, an object
                    m = re.search("current_size=| object at 0x", text)
                    if m and m.start() < cols and text[:m.start()] == row[:m.start()]:
                        out.append((node, mark))
            if d:
                text = "   " * (d - 1) + (" +" if node.field.is_field_set else "  ") + " (...)"
                if text[self.start:][:cols].rstrip() == row:
                    out.append((node, "."))
        return out

    @staticmethod
    def follows(x, mark, y):
        """Can the row of y be just below the one of x?"""
        if mark == "-" and x.children:
            return y is x.children[0]
        if mark == ".":
            # fields after this one were not read yet
            node = x.parent
            while node:
                if node.next is y:
                    return True
                if node.next:
                    return False
                node = node.parent
            return False
        return x.following() is y

    @staticmethod
    def last(x, mark):
        if mark == "-" and x.children:
            return False
        if mark == ".":
            return x.parent.following() is None
        return x.following() is None

    # -------------------------------------------------------------- saves
    def copy(self, path):
        data = self.disk.files.get(path)
        return bytes(data) if isinstance(data, bytearray) else data

    def check_saves(self, faults):
        for path, raw, focused, existed, old in self.saves:
            got = self.copy(path)
            if existed:
                if got != old:
                    raise Violation("overwritten", path)
                continue
            if got is None:
                if not faults and focused:
                    raise Violation("not-saved", "%s of %s" % (path, self.names(focused)))
                continue
            if focused is None or not raw:
                continue
            nodes = [self.tree.nodes[i].field for i in focused]
            stream = self.tree.root.field.stream
            if any(f.absolute_address % 8 or f.size % 8
                   or (f.parent or f).stream is not stream for f in nodes):
                continue
            want = {self.data[f.absolute_address // 8:][:f.size // 8] for f in nodes}
            if bytes(got) in want:
                self.ctx.probe("saved")
            elif not (faults and any(w.startswith(bytes(got)) for w in want)):
                raise Violation("wrong-save", "%s: %d bytes, which are not those of %s" % (
                    path, len(got), self.names(focused)))

    def names(self, focused):
        return [self.tree.nodes[i].field.path for i in focused[:3]]


class U01(DocProp):
    id = "U01"
    title = "The text browser shows the fields of the document, whatever is typed"
    runs = {"quick": 1500, "thorough": 60000}
    lists = ("ops", "faults", "mut")
    synth = 0.0
    method = "seeded keys, sizes of the terminal, messages and faults of the disk"
    rule = ("One run: hachoir-urwid is used on a document of a simulated disk, in a simulated "
            "terminal: keys, sizes, messages and faults are those of the plan. No key ends it "
            "with an error; the rows of an intact document are consecutive fields of the tree, "
            "with the right texts; saved fields have their bytes. Non-trivial: 20 rows were "
            "compared.")
    real = DocProp.real + ["hachoir.urwid", "urwid", "hachoir.core.cmd_line", "hachoir.core.log"]
    stubs = ["terminal (urwid screen)", "disk (simulated file system)"]
    assumptions = ["texts which are wider than the screen, or not ASCII, are compared up to there",
                   "rows of nested documents (other tabs) are not compared"]

    def setup(self):
        DocProp.setup(self)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import hachoir.urwid  # noqa
            import urwid.curses_display  # noqa
            urwid.curses_display.Screen  # noqa

    def gen(self, rng, index, tier):
        plan = self.gen_doc(rng, ["none"] if rng.chance(0.75) else None)
        ops = []
        for _ in range(rng.pick([3, 10, 30, 60])):
            k = rng.randrange(30)
            if k < 19:
                ops.append(["keys", [rng.pick(MOVES)]])
            elif k < 21:
                ops.append(["keys", [rng.pick(MOVES) for _ in range(rng.pick([2, 3]))]])
            elif k < 22:
                ops.append(["keys", ["down"] * rng.pick([5, 20, 50])])
            elif k == 22:
                ops.append(["resize", self.gen_size(rng)])
            elif k == 23:
                ops.append(["keys", [rng.pick([" ", " ", "f1", "?", "<", ">", "esc", "ctrl w"])]])
            elif k == 24:
                ops.append(["keys", [rng.pick(["+", "-", "-"])]])
            elif k == 25:
                ops.append(["keys", [rng.pick(["<", ">", "x", "tab", "f5", "delete", "\xe9",
                                               "meta a", "backspace"])]])
            elif k == 26:
                ops.append(["log", rng.pick(["info", "warning", "error"]),
                            rng.pick(["a message", "long " * 50, "two\nlines", "\u4e2d", ""])])
            elif k == 27:
                ops.append(["type", rng.chance(0.5), rng.pick([
                    ["tab"], ["a", "tab", "tab"], ["esc"], ["x", "/", "tab"], ["left", "enter"],
                    ["\xe9", "enter"], ["down", "up", "f1", "q"], ["enter"],
                    ["n", "o", "/", "f", "enter"], ["backspace"] * 20 + ["enter"],
                    ["backspace"] * 20 + ["tab"]])])
            else:
                ops.append(["save", rng.pick(["f1", "f2", "old", "d"]), rng.chance(0.7)])
        if rng.chance(0.3):
            # a deep tree, from its end to its beginning
            tour = []
            for _ in range(rng.pick([2, 4, 8])):
                tour += [["keys", ["enter"]], ["keys", [rng.pick(["down", "down", "end"])]]]
                if rng.chance(0.3):
                    tour.append(["keys", ["down"] * rng.pick([2, 5])])
            tour.append(["keys", [rng.pick(["end", "page down"])] * rng.pick([1, 2, 3])])
            tour.append(["keys", ["down"] * rng.pick([1, 10, 50])])
            tour += [["keys", [rng.pick(["up", "page up", "up"])]]
                     for _ in range(rng.pick([5, 20, 40]))]
            at = rng.randrange(len(ops) + 1)
            ops[at:at] = tour
        plan["ops"] = ops
        plan["size"] = self.gen_size(rng)
        plan["preload"] = rng.pick([None, None, 0, 1, 3, 100])
        plan["path"] = rng.pick([None, None, None, "/", "nothing", "/header", "data[0]"])
        plan["show_size"] = rng.chance(0.9)
        plan["show_value"] = rng.chance(0.9)
        plan["profile"] = rng.chance(0.15)
        plan["verbose"] = rng.pick(["", "", "--verbose", "--debug", "--quiet"])
        plan["faults"] = gen_faults(rng, ["read", "read", "write", "open", "close"], span=40) \
            if rng.chance(0.3) else []
        plan["space"] = rng.pick([None, None, None, 0, 10])
        return plan

    @staticmethod
    def gen_size(rng):
        if rng.chance(0.15):
            return [rng.pick([30, 40, 49]), rng.pick([6, 10])]
        return [rng.pick([60, 80, 100, 200]), rng.pick([10, 24, 24, 60])]

    def run(self, plan, ctx):
        import urwid.curses_display
        from hachoir.core import config, log
        docs.count_damage(ctx, plan["mut"])
        data = self.content(plan)
        try:
            root = build(plan, data)
        except Exception:
            ctx.probe("refused")
            return
        tree = Tree(root, 400)
        disk = SimFS(ctx, plan["faults"], plan["space"])
        disk.write_file(PATH, data)
        disk.files[OUT] = DIRECTORY
        disk.write_file(OUT + "/old", b"old content")
        disk.files[OUT + "/d"] = DIRECTORY
        sim = Session(plan, ctx, disk, tree, data)
        if plan["mut"] or plan["faults"] or not tree.whole or plan["path"]:
            sim.frozen = True
        log.log.use_print = True
        config.quiet = False
        argv = ["hachoir-urwid", "--parser", plan["parser"]]
        for key in ("preload", "path"):
            if plan[key] is not None:
                argv.append("--%s=%s" % (key, plan[key]))
        if not plan["show_size"]:
            argv.append("--hide-size")
        if not plan["show_value"]:
            argv.append("--hide-value")
        if plan["profile"]:
            argv.append("--profile-display")
        if plan["verbose"]:
            argv.append(plan["verbose"])
        argv.append(PATH)
        Screen.sim = sim
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            urwid.curses_display.Screen = Screen
        cwd = os.getcwd
        os.getcwd = lambda: OUT
        try:
            from hachoir.urwid import main
            res = run_main(main, argv, disk)
        finally:
            os.getcwd = cwd
        failed = [kind for _, kind in disk.fired_paths if kind != "short"]
        if res["exc"]:
            raise Violation("exception", "%s; %s" % (res["exc"], res.get("tb", "")[-700:]))
        if res["code"] != 0:
            if sim.draws or not (failed or plan["mut"]):
                raise Violation("exit-status", "%s %s" % (res["code"], short(res["err"])))
            ctx.probe("not-opened")
            return
        sim.check_saves(bool(failed) or plan["space"] is not None)
        handles = [h.path for h in disk.handles_open if h.path.startswith(OUT)]
        if handles:
            raise Violation("left-open", short(handles))
        ctx.event(sim.draws, sim.checked)
        if sim.checked:
            ctx.probe("rows", sim.checked)
        ctx.state(plan["parser"], sim.draws, sim.checked)

    def nontrivial(self, plan, summary):
        return summary["probes"].get("rows", 0) >= 20

    def simplify(self, plan):
        yield from DocProp.simplify(self, plan)
        for key, v in (("size", [100, 24]), ("preload", None), ("path", None),
                       ("verbose", ""), ("profile", False), ("space", None)):
            if plan[key] != v:
                yield dict(plan, **{key: v})

    def sample(self, plan):
        return short(json.dumps(plan), 700)
