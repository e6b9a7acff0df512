"""Line cursors against a list-with-index model, over every operation sequence to a depth."""
import io
import os
import tempfile

from mc.core import Violation

ASSUMPTIONS = ["the wrapped handle is seekable and starts at its beginning or at a line start",
               "line numbers are claimed for file cursors and for blocks opened on one of their lines, within the text",
               "a file cursor remembers one line; rewinding it twice in a row is the same as once"]

SETUP = {}


def setup(deep):
    SETUP["dir"] = tempfile.mkdtemp(prefix="mc-c05-")


def teardown():
    import shutil
    shutil.rmtree(SETUP["dir"])


TEXTS = {
    "plain": "a\nb\nc\nd\n",
    "no final newline": "a\nb\nc",
    "blank lines": "\n\na\n\n",
    "unicode": "\u00c5 \u00b5\nz\n\U0001d6b4\u00e9\ny\n",
    "one": "a\n",
    "empty": "",
    "crlf": "a\r\nb\r\nc\r\n",
    "same": "a\na\na\na\n",
    "long": "x" * 9000 + "\n" + "y" * 9000 + "\nz\n",
}


def lines_of(text):
    return text.splitlines(keepends=True) if "\r" not in text else [x + "\n" for x in text.split("\r\n")[:-1]]


def handle(kind, name):
    text = TEXTS[name]
    if kind == "stringio":
        return io.StringIO(text if "\r" not in text else text.replace("\r\n", "\n"))
    path = os.path.join(SETUP["dir"], f"{name}-{os.getpid()}")
    if not os.path.exists(path):
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
    return open(path, encoding="utf-8")


class Model:
    """List with an index; `memory` rewinds possible (None: all)."""

    def __init__(self, lines, memory, at=0):
        self.lines, self.memory, self.i, self.undo = lines, memory, at, 0

    def next(self):
        if self.i >= len(self.lines):
            return None
        self.i += 1
        self.undo = self.undo + 1 if self.memory is None else min(self.undo + 1, self.memory)
        return self.lines[self.i - 1]

    def rewind(self):
        if not self.undo:
            return False
        self.undo -= 1
        self.i -= 1
        return True


def expect(what, got, want, hist, text):
    if got != want:
        raise Violation(f"{what} is {got!r}, expected {want!r}, after {' '.join(hist)}", {"text": text})


def walk(c, obj, model, ops, hist, text, lineno=0, strict=True):
    """Apply every sequence of reads and rewinds; `lineno` is the number reported before the first line."""
    for _ in range(ops):
        if strict:
            expect("line number", obj.lineno, lineno + model.i, hist, text)
        op = c.pick("op", ("next", "rewind", "loop", "stop"))
        hist.append(op)
        if op == "stop":
            break
        if op == "next":
            want = model.next()
            expect("next line", next(obj, None), want, hist, text)
            if want is None:        # after the end: one rewind must not bring a line back, reading goes on being at the end
                if c.flag("rewind at end"):
                    hist.append("rewind")
                    obj.rewind()
                expect("line after the end", next(obj, None), None, hist, text)
                return "end"
        elif op == "loop":          # a for loop left at the second line
            for n, line in enumerate(obj):
                expect("line in loop", line, model.next(), hist, text)
                if n == 1:
                    break
            else:
                expect("line after loop", None, model.next(), hist, text)
                return "end"
        else:
            if not model.rewind():
                if model.memory is None:
                    try:
                        obj.rewind()
                    except ValueError:
                        continue
                    raise Violation(f"rewinding before the first line is not refused after {' '.join(hist)}", {"text": text})
            obj.rewind()
    rest = list(obj)
    expect("remaining lines", rest, model.lines[model.i:], [*hist, "drain"], text)
    return f"rest{len(rest)}"


def file_cursor(c):
    """File cursor over strings and real files, fresh or partly read."""
    from castep_outputs.utilities.filewrapper import FileWrapper
    name = c.pick("text", TEXTS)
    kind = c.pick("kind", ("stringio", "file"))
    lines = lines_of(TEXTS[name])
    raw = handle(kind, name)
    try:
        skip = c.pick("already read", (0, 1) if lines else (0,))
        for _ in range(skip):
            raw.readline()
        fw = FileWrapper(raw)
        return walk(c, fw, Model(lines[skip:], 1), 9 if c.deep else 6, [f"{kind} {name} from {skip}"], TEXTS[name])
    finally:
        raw.close()


def block_cursor(c):
    """Blocks however made, with bounds removed: cursor, length, truth value, slices and conversions."""
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    name = c.pick("text", TEXTS)
    lines = lines_of(TEXTS[name])
    how = c.pick("made by", ("iterable", "get_lines", "re", "re nested"))
    hist = [f"block {name} {how}"]
    start, strict = 0, True
    if how == "iterable":
        blk, strict = Block.from_iterable(iter(lines)), False
    elif how == "get_lines":
        blk, strict = Block.get_lines(handle("stringio", name), len(lines) + 1, eof_possible=True), False
    else:
        if not lines:
            return "empty"
        start = c.pick("start", range(len(lines)))
        fw = FileWrapper(handle("stringio", name))
        for _ in range(start + 1):
            first = next(fw)
        blk = Block.from_re(first, fw, "", r"^\Z_", eof_possible=True)
        if how == "re nested":
            first = next(blk)
            blk = Block.from_re(first, blk, "", r"^\Z_", eof_possible=True)
    lines = lines[start:]
    trims = [(i, j) for i in range(len(lines) + 2) for j in range(len(lines) + 3)]
    for _ in range(c.pick("trims", (1, 2))):
        fore, back = c.pick("bounds", trims if not start and len(hist) == 1 and (c.deep or how != "re nested") else ((0, 0), (1, 0), (0, 1), (1, 2), (0, 5)))
        if not (fore or back) and not c.flag("no-op trim"):
            break
        blk.remove_bounds(fore, back)
        hist.append(f"remove_bounds({fore}, {back})")
        lines = lines[fore:max(len(lines) - back, 0)]
        start += fore
    model = Model(lines, None)
    res = walk_block(c, blk, model, hist, TEXTS[name], start, strict)
    check_shape(blk, lines, hist, TEXTS[name])
    return res


def walk_block(c, blk, model, hist, text, base, strict):
    check_shape(blk, model.lines, hist, text)
    return walk(c, blk, model, 7 if c.deep else 4, hist, text, base, strict)


def check_shape(blk, lines, hist, text):
    """What the block says of its lines without iterating."""
    expect("length", len(blk), len(lines), hist, text)
    expect("truth value", bool(blk), any(x.strip() for x in lines), hist, text)
    expect("list", list(blk.aslist()), lines, hist, text)
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(1, 2), slice(None, None, 2), slice(None, None, -1)):
        expect(f"slice {sl}", list(blk[sl]), lines[sl], hist, text)
    for i in range(-len(lines), len(lines)):
        expect(f"line [{i}]", blk[i], lines[i], hist, text)
    try:
        blk[len(lines)]
    except IndexError:
        pass
    else:
        raise Violation(f"line beyond the block after {' '.join(hist)}", {"text": text})
    want = [x for x in "\n".join(lines).split("\n") if x]
    expect("text", [x for x in str(blk).split("\n") if x], want, hist, text)
    expect("stream", [x.rstrip("\n") for x in blk.asstringio() if x.strip("\n")], want, hist, text)


def mixed(c):
    """File cursor whose lines are also taken by blocks opened on them: reads, rewinds and blocks in any order."""
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    text = "".join(f"{x}\n" for x in ("s0", "a", "s1", "e", "", "s2", "b", "e", "c"))
    lines = lines_of(text)
    kind = c.pick("kind", ("stringio", "block"))
    parent = FileWrapper(io.StringIO(text))
    base = 0
    if kind == "block":
        parent = Block.from_re(next(parent), parent, "", "^c")
    model = Model(lines, None if kind == "block" else 1)
    hist = [kind]
    last = None
    for _ in range(10 if c.deep else 7):
        expect("line number", parent.lineno, base + model.i, hist, text)
        op = c.pick("op", ("next", "rewind", "block", "stop"))
        hist.append(op)
        if op == "stop":
            break
        if op == "next":
            last = model.next()
            expect("next line", next(parent, None), last, hist, text)
            if last is None:
                return "end"
        elif op == "rewind":
            if kind == "block" and not model.undo:
                return "refused"
            model.rewind()
            parent.rewind()
            last = None
        else:
            if last is None:
                return "no line"
            at = model.i
            hit = last.startswith("s")
            blk = Block.from_re(last, parent, "^s", "^e")
            if not hit:
                expect("block", list(blk), [], hist, text)
                continue
            want = [last]
            while True:
                want.append(model.next())
                if want[-1].startswith("e"):
                    break
            expect("line number before the block's first line", blk.lineno, base + at - 1, hist, text)
            check_shape(blk, want, hist, text)
            for n, line in enumerate(want):
                expect("line of block", next(blk, None), line, hist, text)
                expect("line number in block", blk.lineno, base + at + n, hist, text)
            last = want[-1]
    expect("remaining lines", list(parent), lines[model.i:], [*hist, "drain"], text)
    return "ok"


MODELS = [("file_cursor", file_cursor, 0, 0), ("block_cursor", block_cursor, 0, 0), ("mixed", mixed, 0, 0)]
