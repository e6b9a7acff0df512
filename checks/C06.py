"""Block extraction against a scan over the list of lines, over every short line sequence."""
import io
import re

from mc.core import Violation

ASSUMPTIONS = ["end conditions are tested on the lines after the opening one",
               "the number of lines a counted block takes beyond its own, and the outcome when exactly that many remain, are not claimed"]

LETTERS = ("S 1\n", "E\n", "SE\n", "x\n", "\n")


def parent_of(kind, lines):
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    if kind == "stream":
        return io.StringIO("".join(lines))
    if kind == "wrapper":
        return FileWrapper(io.StringIO("".join(lines)))
    if kind == "block":
        return Block.from_iterable(lines)
    return Block.from_re(lines[0], parent_of("wrapper", lines[1:]), "", r"\Z_", eof_possible=True)


def text(c, alphabet, n, tag="line"):
    out = []
    for i in range(n):
        x = c.pick(f"{tag}{i}", (*alphabet, None))
        if x is None:
            break
        out.append(x)
    return out


def fail(msg, lines, **kw):
    raise Violation(msg, {"lines": lines, **kw})


def from_re(c):
    """Delimited block: every line sequence, opening line, number of ends, parent."""
    from castep_outputs.utilities.filewrapper import Block
    lines = text(c, LETTERS, 6 if c.deep else 5)
    if not lines:
        return "empty"
    if lines and c.flag("no final newline"):
        lines[-1] = lines[-1].rstrip("\n")
        if not lines[-1]:
            return "same"
    kind = c.pick("parent", ("stream", "wrapper", "block", "block of wrapper"))
    n_end = c.pick("n_end", (1, 2, 3))
    eof = c.flag("eof possible")
    compiled = c.deep and c.flag("compiled")
    at = c.pick("opening", range(len(lines)))
    src = parent_of(kind, lines)
    for _ in range(at + 1):
        first = next(src)
    if first != lines[at]:
        fail("parent yields another line", lines)
    found, end = 0, None
    for i in range(at + 1, len(lines)):
        if "E" in lines[i]:
            found += 1
            if found == n_end:
                end = i
                break
    start_re, end_re = (re.compile("^S"), re.compile("E")) if compiled else ("^S", "E")
    kw = {} if n_end == 1 and c.pick("default n", (True, False)) else {"n_end": n_end}
    try:
        blk = Block.from_re(first, src, start_re, end_re, eof_possible=eof, **kw)
    except OSError:
        if not first.startswith("S") or end is not None or eof:
            fail(f"error though the block of line {at} is complete or absent or may be cut", lines, n_end=n_end)
        return "eof error"
    if not first.startswith("S"):
        if len(blk) or blk or list(blk):
            fail(f"block opened on a line {at} that does not match", lines)
        if list(src) != lines[at + 1:]:
            fail(f"a line that opens nothing ({at}) consumed others", lines)
        return "none"
    if end is None:
        if not eof:
            fail(f"no error though the text ends in the block of line {at}", lines, n_end=n_end)
        end = len(lines) - 1
    want = lines[at:end + 1]
    if not blk or list(blk.aslist()) != want or list(blk) != want:
        fail(f"block of line {at} holds {blk.aslist()!r}, expected {want!r}", lines, n_end=n_end)
    rest = list(src)
    if rest != lines[end + 1:]:
        fail(f"after the block of line {at}: {rest!r}, expected {lines[end + 1:]!r}", lines, n_end=n_end)
    return "block"


def successive(c):
    """The loop of every parser: blocks taken one after another from one source partition its lines."""
    from castep_outputs.utilities.filewrapper import Block
    lines = text(c, LETTERS, 8 if c.deep else 6)
    src = parent_of(c.pick("parent", ("stream", "wrapper", "block")), lines)
    got, want = [], []
    i = 0
    while i < len(lines):
        if lines[i].startswith("S"):
            j = next((k for k in range(i + 1, len(lines)) if "E" in lines[k]), len(lines) - 1)
            want.append(lines[i:j + 1])
            i = j + 1
        else:
            want.append(lines[i])
            i += 1
    for line in src:
        blk = Block.from_re(line, src, "^S", "E", eof_possible=True)
        got.append(blk.aslist() if blk else line)
    if got != want:
        fail(f"taken {got!r}, expected {want!r}", lines)
    return f"{len(want)}"


def nested(c):
    """Blocks opened inside a block, taking from it."""
    from castep_outputs.utilities.filewrapper import Block
    inner = text(c, ("s\n", "e\n", "se\n", "x\n"), 6 if c.deep else 4, "inner")
    after = c.pick("after", ([], ["s\n", "e\n"], ["x\n"]))
    src = parent_of(c.pick("parent", ("stream", "wrapper", "block")), ["S\n", *inner, "E\n", *after])
    outer = Block.from_re(next(src), src, "^S", "^E")
    lines = ["S\n", *inner, "E\n"]
    got, want = [], []
    i, error = 0, False
    while i < len(lines):
        if lines[i].startswith("s"):
            j = next((k for k in range(i + 1, len(lines)) if "e" in lines[k]), None)
            if j is None:
                error = True
                break
            want.append(lines[i:j + 1])
            i = j + 1
        else:
            want.append(lines[i])
            i += 1
    try:
        for line in outer:
            blk = Block.from_re(line, outer, "^s", "e")
            got.append(blk.aslist() if blk else line)
    except OSError:
        if not error:
            fail("error though every inner block is complete", lines)
    else:
        if error:
            fail("inner block ran out of its outer block without an error", lines)
    if got != want:
        fail(f"taken {got!r}, expected {want!r}", lines)
    if list(src) != after:
        fail("inner blocks took lines beyond the outer block", [*lines, *after])
    return "error" if error else "ok"


def counted(c):
    """Counted block: the first n lines, an error if fewer remain unless acceptable."""
    from castep_outputs.utilities.filewrapper import Block
    total = c.pick("lines", range(8 if c.deep else 6))
    lines = [f"{i}\n" if c.deep or i % 2 else "\n" for i in range(total)]
    at = c.pick("already read", range(total + 1))
    n = c.pick("n", range(total + 3))
    eof = c.flag("eof possible")
    src = parent_of(c.pick("parent", ("stream", "wrapper", "block")), lines)
    for _ in range(at):
        next(src)
    left = lines[at:]
    if n == len(left) and not eof:
        return "unspecified"
    try:
        blk = Block.get_lines(src, n, eof_possible=eof)
    except OSError:
        if eof or len(left) > n:
            fail(f"error taking {n} of {len(left)} lines", lines)
        return "eof error"
    if len(left) < n and not eof:
        fail(f"no error taking {n} of {len(left)} lines", lines)
    if blk.aslist() != left[:n] or list(blk) != left[:n]:
        fail(f"{n} lines: {blk.aslist()!r}, expected {left[:n]!r}", lines)
    return "block"


PIECES = ("a", "  b c", "# c", "a # c", "a !c#d", "", "  ", "  # c", "a#", "//x", "a // x / y", "\td\t", "1*2", "a.b")
CHARS = [("#!", set("#!")), ({"//", "#"}, {"//", "#"}), ({"*"}, {"*"}), ({"."}, {"."}), ("#", {"#"}), ({"/", "!"}, {"/", "!"}), (None, set("#!"))]


def comments(c):
    """Comment stripping: whole-line and inline comments, blank lines, every comment set."""
    from castep_outputs.utilities.utility import strip_comments
    lines = [x + "\n" for x in text(c, PIECES, 3 if c.deep else 2)]
    chars, marks = c.pick("chars", CHARS)
    inline = c.flag("inline")
    kind = c.pick("parent", ("stream", "wrapper", "block"))
    want = []
    for line in lines:
        if inline:
            at = min((line.find(m) for m in marks if m in line), default=None)
            line = line[:at] if at is not None else line
        elif any(line.lstrip().startswith(m) for m in marks):
            continue
        if line.strip():
            want.append(line.rstrip())
    kw = {} if chars is None else {"comment_char": chars}
    before = set(chars) if isinstance(chars, set) else chars
    blk = strip_comments(parent_of(kind, lines), remove_inline=inline, **kw)
    if list(blk.aslist()) != want or list(blk) != want or bool(blk) != bool(want):
        fail(f"kept {blk.aslist()!r}, expected {want!r} (comment marks {sorted(marks)}, inline {inline})", lines)
    if chars != before:
        fail("comment marks given by the caller changed", lines)
    return len(want)


MODELS = [("from_re", from_re, 0, 0), ("successive", successive, 0, 0), ("nested", nested, 0, 0),
          ("counted", counted, 0, 0), ("comments", comments, 0, 0)]
