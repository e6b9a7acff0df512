"""Lazy trajectory reader: every bounded history of accesses, against the eager parse."""
import os
import shutil
import tempfile
from pathlib import Path

from castep_outputs import MDGeomParser, parse_md_geom_file

from checks.C09 import ATOMS, frame
from mc.compare import canon, same
from mc.core import Violation, fmt_exc
from mc.gen import Writer

TMP = None
FILES = {}
VARIANTS = [(n, sep, tail, eol, kind) for n in (1, 2, 3, 4, 11) for sep in ("", "  ") for tail in ("sep", "none", "noeol")
            for eol in ("\n", "\r\n") for kind in ("md", "geom")]


class _Fixed:
    """Chooser stand-in taking every default."""

    def dev(self, _name, options):
        return list(options)[0]

    pick = dev


def build(n, sep, tail, eol, kind, head=True):
    w = Writer(_Fixed())
    lines = [" BEGIN header", sep, " END header", sep] if head else []
    exp = []
    secs = ["E", "h", "R", "F"]
    for i in range(n):
        ls, ex = frame(_Fixed(), w, ATOMS["two-spec"], secs, i, kind)
        lines += ls
        if i < n - 1 or tail == "sep":
            lines.append(sep)
        exp.append(ex)
    return eol.join(lines) + ("" if tail == "noeol" else eol), exp


def setup(deep):
    global TMP
    TMP = Path(tempfile.mkdtemp(prefix="verif-c08-"))
    for v in VARIANTS:
        text, exp = build(*v)
        p = TMP / ("-".join(str(VARIANTS.index(v)) for _ in "x") + ".md")
        p.write_bytes(text.encode())
        FILES[v] = (p, canon(exp))


def teardown():
    shutil.rmtree(TMP, ignore_errors=True)


class Model:
    """Reference: a list of frames and the index of the next one (None at the end)."""

    def __init__(self, frames):
        self.f = frames
        self.n = len(frames)
        self.nxt = 0 if frames else None
        self.its = []

    def get(self, i):
        if not -self.n <= i < self.n:
            raise IndexError
        i %= self.n
        self.nxt = i + 1 if i + 1 < self.n else None
        return self.f[i]


def ops(n):
    idx = sorted({0, 1, n - 1, n, -1, -n, -n - 1}, key=lambda i: (abs(i), -i))
    out = [("get", i) for i in idx]
    out += [("slice", s) for s in ((None, None, None), (1, None, None), (None, None, -1), (0, 99, 2), (-2, None, None), (2, 0, -1))]
    out += [("tuple", (n - 1, 0)), ("tuple", ()), ("iter", None), ("next", 0), ("read", None), ("list", None), ("send", 0),
            ("send", n - 1), ("len", None), ("frame", 0)]
    return out


def apply_real(p, its, op):
    k, a = op
    if k in ("get",):
        return p[a]
    if k == "frame":
        return p.get_frame(a)
    if k == "slice":
        return p[slice(*a)]
    if k == "tuple":
        return p[a]
    if k == "iter":
        its.append(iter(p))
        return None
    if k == "next":
        return next(its[-1])
    if k == "send":
        return its[-1].send(a)
    if k == "read":
        return p.read_next()
    if k == "list":
        return list(p)
    if k == "len":
        return len(p)
    raise AssertionError(k)


def apply_model(m, op):
    k, a = op
    if k in ("get", "frame"):
        return m.get(a)
    if k == "slice":
        return [m.get(i) for i in range(*slice(*a).indices(m.n))]
    if k == "tuple":
        return [m.get(i) for i in a]
    if k == "iter":
        m.its.append([0, False])
        return None
    if k in ("next", "send"):
        it = m.its[-1]
        if k == "send":
            it[0] = a
        if it[0] >= m.n:
            raise StopIteration
        out = m.get(it[0])
        it[0] += 1
        it[1] = True
        return out
    if k == "read":
        if m.nxt is None:
            raise StopIteration
        return m.get(m.nxt)
    if k == "list":
        return [m.get(i) for i in range(m.n)]
    if k == "len":
        return m.n
    raise AssertionError(k)


def step(parser, its, model, op, hist):
    try:
        exp, err = apply_model(model, op), None
    except (IndexError, StopIteration) as e:
        exp, err = None, type(e)
    try:
        got, gerr = apply_real(parser, its, op), None
    except (IndexError, StopIteration) as e:
        got, gerr = None, type(e)
    except Exception as e:
        raise Violation(f"after {hist}: {op} raised {fmt_exc(e)}") from None
    if err != gerr:
        raise Violation(f"after {hist}: {op}: expected {err or 'a result'}, got {gerr or 'a result'}")
    if not same(exp, canon(got)):
        raise Violation(f"after {hist}: {op} returned the wrong frame(s)", {"expected": exp, "got": canon(got)})
    if parser.next_frame != model.nxt:
        raise Violation(f"after {hist} {op}: next frame reported {parser.next_frame}, expected {model.nxt}")


def legal(op, model):
    if op[0] == "next":
        return bool(model.its)
    if op[0] == "send":
        return bool(model.its) and model.its[-1][1] and model.its[-1][0] < model.n + 1 and not model.its[-1][0] > model.n
    return True


def _history(c, v, depth):
    path, frames = FILES[v]
    parser, its, model = MDGeomParser(path), [], Model(frames)
    if len(parser) != len(frames):
        raise Violation(f"{v}: reports {len(parser)} frames, file has {len(frames)}", {"file": path.read_text()})
    hist = []
    dead = False
    for d in range(depth):
        allowed = [o for o in ops(model.n) if legal(o, model) and not (dead and o[0] == "send")]
        op = c.pick(f"op{d}", allowed)
        step(parser, its, model, op, hist)
        if op[0] in ("next", "send"):
            dead = model.its[-1][0] > model.n
        hist.append(op)
    return "history"


def variants(c):
    """Every file variant: eager parse, length, and every single access."""
    v = c.pick("variant", VARIANTS)
    path, frames = FILES[v]
    try:
        eager = canon(parse_md_geom_file(path))
    except Exception as e:
        raise Violation(f"{v}: eager parse failed {fmt_exc(e)}") from None
    if not same(frames, eager):
        raise Violation(f"{v}: eager parse differs from what was written", {"file": path.read_text()})
    return _history(c, v, 2)


def history(c):
    v = c.pick("variant", [("n3", 3), ("n2", 2), ("n1", 1)])
    var = (v[1], "  ", "sep", "\n", "md")
    return _history(c, var, 4 if c.deep else 3)


def two_readers(c):
    """Two readers of one file, operations interleaved in every order."""
    path, frames = FILES[3, "", "sep", "\n", "md"]
    rs = [(MDGeomParser(path), [], Model(frames)) for _ in range(2)]
    for r in rs:
        r[1].append(iter(r[0]))
        r[2].its.append([0, False])
    small = [("get", 0), ("get", -1), ("next", 0), ("read", None), ("slice", (None, None, -1)), ("get", 3)]
    hist = []
    for d in range(6 if c.deep else 4):
        who = c.pick(f"who{d}", 2)
        op = c.pick(f"op{d}", small)
        p, its, m = rs[who]
        step(p, its, m, op, hist)
        hist.append((who, op))
    return "two"


MODELS = [("variants", variants, 0, 0), ("history", history, 0, 0), ("two_readers", two_readers, 0, 0)]
ASSUMPTIONS = ["frames of one file have equal length in bytes, as CASTEP writes them"]
