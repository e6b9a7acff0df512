"""Helpers for writer models: number spelling, labels, calling the parsers."""
from __future__ import annotations

import io

from mc.compare import canon, diff, show
from mc.core import Chooser, Hang, Violation, fmt_exc


class Num(str):
    """Text of a number together with the value it denotes."""

    def __new__(cls, text, v):
        obj = super().__new__(cls, text)
        obj.v = v
        return obj


class Writer:
    """
    Distinct number per slot; how each slot is spelled is a deviation of the model.

    `kinds` is the alphabet of spellings; the default is a positive value unlike that of any other slot.
    How the values of all slots relate (all distinct, coinciding, opposite, falling, none but zeros, spelt in turn in every way)
    is one more choice, the pattern.
    """

    PATTERNS = ("distinct", "same", "rows", "pairs", "falling", "zeros", "negatives", "opposite", "mixed")

    def __init__(self, c, kinds=None):
        self.c = c
        self.k = 0
        self.kinds = kinds
        self.pattern = None
        self.reals = 0

    def base(self):
        self.k += 1
        if self.pattern is None:
            self.pattern = "distinct"
            if isinstance(self.c, Chooser):
                self.pattern = (self.c.dev if self.c.bound else self.c.pick)("pattern", self.PATTERNS)
        n, k = self.reals, self.k
        self.reals += 1
        if self.pattern == "same":
            k = 3
        elif self.pattern in ("rows", "opposite"):  # consecutive rows of three are equal (or opposite)
            k = 1 + n % 3
        elif self.pattern == "pairs":
            k = 1 + n // 2
        elif self.pattern == "falling":
            return 9.9 / (1 + n * 0.37)
        return k + ((k * 7919) % 9973 + 13) / 10007.0

    def kind(self, name, options, real=True):
        allowed = options
        options = self.kinds if self.kinds is not None else options
        got = self.c.dev(f"{name}#{self.k}", options)
        if real and got == options[0] in ("pos", "fixed"):
            if self.pattern == "mixed":
                return allowed[self.k % len(allowed)]
            if self.pattern == "zeros" and "zero" in allowed:
                return "zero"
            if "neg" in allowed and (self.pattern == "negatives" or self.pattern == "opposite" and (self.reals - 1) // 3 % 2):
                return "neg"
        return got

    def F(self, name, w, d, lo=None, hi=None, kinds=("pos", "neg", "zero", "wide", "negwide"), pad=1, scale=None):
        """Fortran Fw.d; keeps `pad` blanks free on the left (0: a negative number may touch its neighbour)."""
        x = self.base()
        if scale is not None:
            x *= scale
        room = w - d - 1 - pad
        if hi is None:
            hi = 10.0 ** max(room - (not pad), 1)  # only a sign may touch the neighbour
        while abs(x) >= hi:
            x /= 10.0
        kind = self.kind(name, kinds)
        if kind == "neg":
            while pad and abs(x) >= 1 and len(f"{-x:.{d}f}") > w - pad:
                x /= 10.0
            x = -x if room > 1 or abs(x) < 1 else x
        elif kind == "zero":
            x = 0.0
        elif kind == "wide":
            wide = room if pad else room - 1  # only a sign may touch the neighbour on the left
            x = 10.0 ** (wide - 1) * 9.0 + x % 1 if wide > 0 else x
        elif kind == "negwide":
            x = -(10.0 ** (room - 2) * 8.0 + x % 1) if room > 1 else -(x % 1)
        elif kind == "small":
            x = 10.0 ** -d * (1 + self.k % 9)
        text = f"{x:{w}.{d}f}"
        if len(text) > w:
            text = f"{x % 1:{w}.{d}f}"
        return Num(text, float(text))

    def f(self, name, d=4, **kw):
        """Unpadded fixed-point number."""
        t = self.F(name, d + 8, d, **kw).strip()
        return Num(t, float(t))

    def E(self, name, w, d, kinds=("pos", "neg", "zero", "tiny", "huge", "negtiny"), style="E{s}{e:03d}"):
        """Scientific number; CASTEP prints three exponent digits."""
        x = self.base()
        kind = self.kind(name, kinds)
        e = (self.k * 5) % 7 - 3
        if kind in ("neg",):
            x = -x
        elif kind == "zero":
            x, e = 0.0, 0
        elif kind == "tiny":
            e = -101
        elif kind == "negtiny":
            x, e = -x, -12
        elif kind == "huge":
            e = 102
        m = x
        while abs(m) >= 10:
            m /= 10.0
        text = f"{m:.{d}f}"
        if text.lstrip("-").startswith("10."):
            text = text.replace("10.", "9.", 1)
        text += style.format(s="-" if e < 0 else "+", e=abs(e))
        return Num(f"{text:>{w}}", float(text))

    def I(self, name, w=0, lo=1, kinds=("pos", "zero", "wide", "neg"), hi=None):
        self.k += 1
        kind = self.kind(name, kinds, False)
        x = lo + self.k
        if hi is not None:
            x = lo + self.k % max(hi - lo, 1)
        if kind == "zero":
            x = 0
        elif kind == "neg":
            x = -x
        elif kind == "wide":
            x = 10 ** max((w or 6) - 2, 1) + self.k
        elif kind == "full":  # fills its column
            x = 10 ** (w - 1) + 2 * 10 ** (w - 2) + self.k
        return Num(f"{x:{w}d}" if w else str(x), x)


def lit(text, v):
    return Num(text, v)


SPECIES = ("Si", "O", "Fe", "H")


def parse(fn, text, **kw):
    """Call a parser on text."""
    try:
        return fn(io.StringIO(text), **kw)
    except (Violation, Hang):
        raise
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": text}) from None


def check(fn, text, expected, known=None, what="", pre=None, **kw):
    """
    The parse of `text` must be `expected`.

    `known` maps a known-finding id to the data the recorded defect is known to produce instead.
    """
    try:
        got = canon(parse(fn, text, **kw))
    except Violation as v:
        for fid, exp in (known or {}).items():
            if isinstance(exp, str) and exp in v.message:
                raise Violation(f"{what}{exp}", {"text": text}, finding=fid) from None
        raise
    if pre:
        got = pre(got)
    compare(expected, got, text, known, what)


def compare(expected, got, text, known=None, what=""):
    d = diff(canon(expected), got)
    if not d:
        return
    for fid, exp in (known or {}).items():
        if not isinstance(exp, str) and not diff(canon(exp), got, limit=1):
            raise Violation(f"{what}{show(d)}", {"text": text}, finding=fid)
    raise Violation(f"{what}{show(d)}", {"text": text, "got": repr(got)[:4000]})


def doc(*lines):
    return "\n".join(lines) + "\n"
