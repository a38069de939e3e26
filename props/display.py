"""F08: what is displayed of a document."""
import itertools

from simkit import docs
from simkit.core import Violation, short
from props.trees import DocProp, build


class F08(DocProp):
    id = "F08"
    title = "Every field of every document can be named, described and shown"
    runs = {"quick": 3000, "thorough": 100000}
    lists = ("ops", "mut")
    kinds = None
    rule = ("One run: the fields of a document (damaged or not), then those of the documents "
            "embedded in it, are read in an order chosen by the plan; the names, descriptions, "
            "types and displays are texts, MIME types and suffixes have their form, and nothing "
            "fails. An intact document logs no error. Non-trivial: 10 fields were read.")
    assumptions = ["errors which are logged are judged in intact documents only",
                   "embedded documents: at most 12 in each document, at most 3 levels"]

    def gen(self, rng, index, tier):
        plan = self.gen_doc(rng, ["none"] if rng.chance(0.5) else None)
        plan["ops"] = docs.gen_access(rng, rng.pick([0, 0, 5, 20, 80]))
        plan["limit"] = rng.pick([50, 300, 1500])
        plan["order"] = [rng.pick(ORDERS) for _ in range(rng.pick([1, 3]))]
        return plan

    def run(self, plan, ctx):
        from hachoir.core import config, log
        docs.count_damage(ctx, plan["mut"])
        errors = []
        intact = not plan["mut"] and "layout" not in plan
        config.quiet = False
        # what a message of level "warning" tells when a parser failed
        failed = intact and plan["file"] not in NOISY \
            and not plan["file"].startswith("gen:f.jpeg")

        def on_new_message(level, prefix, text, ctxt):
            text = str(text)
            if level >= log.log.LOG_ERROR or (
                    failed and level >= log.log.LOG_WARN and not text.startswith(HARMLESS)):
                errors.append((text, getattr(ctxt, "path", None)))
        log.log.on_new_message = on_new_message
        data = self.content(plan)
        try:
            root = build(plan, data)
        except Exception as err:
            ctx.probe("refused." + type(err).__name__)
            return

        def check_errors():
            if intact and errors:
                raise Violation("error-in-intact-document", "%s: %s" % errors[0])
        access = docs.Access([root], ctx)
        for op in plan["ops"]:
            access.do(op)
        check_errors()
        self.seen = self.embedded = 0
        self.walk(root, plan, ctx, 0, check_errors, errors, intact)
        ctx.probe("fields", self.seen)
        ctx.probe("embedded", self.embedded)
        ctx.state(type(root).__name__, self.seen, self.embedded)

    def walk(self, root, plan, ctx, depth, check_errors, errors, intact):
        from hachoir.parser import guessParser
        self.check_root(root, intact)
        if not depth:
            check_errors()
        stack = [iter([root])]
        n = 0
        where = root.path
        while stack and n < plan["limit"]:
            try:
                f = next(stack[-1])
            except StopIteration:
                stack.pop()
                continue
            except Exception as err:
                raise Violation("exception", "iteration after %s: %r" % (where, err)) from err
            n += 1
            self.seen += 1
            where = f.path
            for code in plan["order"][n % len(plan["order"])]:
                try:
                    self.check(f, code)
                except Violation:
                    raise
                except Exception as err:
                    raise Violation("exception", "%s of %s (%s): %r" % (
                        CODES[code], where, type(f).__name__, err)) from err
            if not depth:
                check_errors()
            if f.is_field_set:
                stack.append(iter(f))
            if depth < 2 and f is not root and self.embedded < 12 and f.size \
                    and not f.absolute_address % 8 and not f.size % 8 \
                    and (f.is_field_set or f.size > 512):
                sub = self.embedded_parser(f, guessParser)
                if sub:
                    self.embedded += 1
                    self.walk(sub, plan, ctx, depth + 1, check_errors, errors, False)
                del errors[:]
        self.check_root(root, intact)
        if not depth:
            check_errors()

    @staticmethod
    def embedded_parser(f, guess):
        """What the browser does when an embedded document is opened"""
        try:
            stream = f.getSubIStream()
            return guess(stream)
        except Exception:
            # F03, S04
            return None

    def check(self, f, code):
        if code == "n":
            text(f, "name", f.name)
            text(f, "path", f.path)
            if f.parent and f.path[-len(f.name):] != f.name:
                raise Violation("path", "%r is the path of %r" % (f.path, f.name))
        elif code == "d":
            text(f, "description", f.description)
        elif code == "t":
            text(f, "field type", f.getFieldType())
        elif code == "h":
            if f.hasValue() not in (True, False):
                raise Violation("wrong-type", "hasValue() of %s: %r" % (f.path, f.hasValue()))
        elif code == "v" and f.hasValue() and (f.size or 0) <= docs.VALUE_LIMIT * 8:
            f.value
        elif code == "s" and (f.size or 0) <= docs.VALUE_LIMIT * 8:
            value = f.display
            if value is not None or f.value is not None or not f.is_field_set:
                text(f, "display", value)
        elif code == "r" and (f.size or 0) <= docs.VALUE_LIMIT * 8:
            value = f.raw_display
            if value is not None or f.value is not None or not f.is_field_set:
                text(f, "raw display", value)

    @staticmethod
    def check_root(root, intact):
        try:
            mime, suffix, size = root.mime_type, root.filename_suffix, root.content_size
            text(root, "description", root.description)
        except Violation:
            raise
        except Exception as err:
            raise Violation("exception", "%s: %r" % (type(root).__name__, err)) from err
        text(root, "MIME type", mime)
        if intact and mime.count("/") != 1:
            raise Violation("mime-type", "%r" % mime)
        if suffix and (not isinstance(suffix, str) or suffix[:1] != "."):
            raise Violation("suffix", "%s: %r" % (type(root).__name__, suffix))
        if size is not None and not isinstance(size, int):
            raise Violation("content-size", "%s: %r" % (type(root).__name__, size))

    def nontrivial(self, plan, summary):
        return summary["probes"].get("fields", 0) >= 10


# messages about the document, not about a part which is given up
HARMLESS = ("[Autofix]", "Duplicate field name", "padding contents",
            "Unable to convert string", "Only supporting Baseline")
# (the image data of generated JPEG documents are not an image)
# documents of the corpus which are cut, or which use what the parsers do not know
NOISY = {
    "angle-bear-48x48.ani", "breakdance.flv", "canon.raw.cr2", "jpeg.exif.photoshop.jpg",
    "ladouce_1h15.wav", "smallville.s03e02.avi",
}
CODES = {"n": "name", "d": "description", "t": "type", "h": "hasValue()", "v": "value",
         "s": "display", "r": "raw display"}
ORDERS = ["".join(x) for x in itertools.permutations("ndthvsr")][::131]


def text(f, what, value):
    if not isinstance(value, str):
        raise Violation("wrong-type", "%s of %s: %s, not a text" % (what, f.path, short(value)))
