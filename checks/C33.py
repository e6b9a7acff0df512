"""Number tokens: every spelling, every short string, every arrangement on a line, against exact arithmetic."""
import re
from fractions import Fraction
from itertools import product

from mc.core import Violation

ASSUMPTIONS = ["exponents have at most three digits and the values fit a double",
               "labelled values are separated by their separator (columns run together at a sign are claimed for get_numbers)",
               "words next to numbers contain no digits"]

INT = r"[+-]?\d+"
REAL = r"[+-]?(?:\d+\.\d*|\.\d+)"
EXP = rf"(?:{REAL}|{INT})[eE][+-]?\d{{1,3}}"
DEXP = rf"(?:{REAL}|{INT})[eEdD][+-]?\d{{1,3}}"
RATIO = r"[+-]?\d+/\d+"


def value(tok):
    """Nearest double of the text, by exact arithmetic."""
    tok = tok.lower().replace("d", "e")
    if "/" in tok:
        a, b = tok.split("/")
        return float(Fraction(int(a), int(b)))
    mant, _, exp = tok.partition("e")
    sign = -1 if mant.startswith("-") else 1
    whole, _, frac = mant.lstrip("+-").partition(".")
    num = Fraction(int((whole + frac) or "0"), 10 ** len(frac)) * Fraction(10) ** int(exp or 0)
    return float(sign * num)


def same(got, want):
    return type(got) is type(want) and got == want


def spell(c, dexp=True):
    """A number as CASTEP prints it or users type it."""
    sign = c.pick("sign", ("", "-", "+"))
    whole = c.pick("whole", ("", "0", "7", "12", "007", "123456789012345678", "99999"))
    frac = c.pick("frac", (None, "", "0", "5", "25", "000", "1415926535897932384"))
    if not whole and not frac:
        return None
    exp = c.pick("exp", ("", "e0", "E+00", "E-08", "e5", "E10", "E+123", "E-300", "e-1") + (("d0", "D-08", "D+3") if dexp else ()))
    tok = sign + whole + ("" if frac is None else "." + frac) + exp
    try:
        value(tok)
    except OverflowError:
        return None
    return tok


def token(c):
    """Every spelling through every conversion."""
    from castep_outputs.utilities.castep_res import get_numbers
    from castep_outputs.utilities.type_conv import determine_type, parse_int_or_float, to_type
    tok = spell(c)
    if tok is None:
        return "no number"
    isint = re.fullmatch(INT, tok) is not None
    want = int(tok) if isint else value(tok)
    if not same(to_type(tok, float), value(tok)):
        raise Violation(f"to_type({tok!r}, float) = {to_type(tok, float)!r}, expected {value(tok)!r}")
    if isint and not same(to_type(tok, int), int(tok)):
        raise Violation(f"to_type({tok!r}, int) = {to_type(tok, int)!r}")
    typ = determine_type(tok)
    if typ is not type(want):
        raise Violation(f"type of {tok!r} is {typ}, expected {type(want)}")
    got = parse_int_or_float(tok)
    if not same(got, want):
        raise Violation(f"parse_int_or_float({tok!r}) = {got!r}, expected {want!r}")
    if not re.search("[dD]", tok):
        text = c.pick("around", ("{}", "  {}", "{}\n", "x = {} eV", "({})", "a:{};", "|{}|", "{},"))
        if get_numbers(text.format(tok)) != [tok]:
            raise Violation(f"numbers of {text.format(tok)!r}: {get_numbers(text.format(tok))!r}, expected [{tok!r}]")
    return "int" if isint else "float"


TOKENS = ("0", "7", "-12", "+3", "1.5", "-0.25", ".5", "-.5", "3.", "-7.", "1.0E-10", "-2.5e+03", "1E5", "0.000", "-1E-5", "12345678.12345678")


def line(c):
    """Numbers side by side: blanks, signs running together, punctuation, words."""
    return row(c, 3, TOKENS, (" ", "   ", "\t", "", ", ", " eV  ", "|"))


def row(c, n, tokens, seps):
    from castep_outputs.utilities.castep_res import get_numbers
    toks, text = [], c.pick("lead", ("", "  ", "E = "))
    for i in range(n):
        t = c.pick(f"t{i}", (*tokens, None))
        if t is None:
            break
        if i:
            sep = c.pick(f"s{i}", seps)
            if not sep and t[0] not in "+-":
                return "would merge"
            text += sep
        text += t
        toks.append(t)
    text += c.pick("tail", ("", "\n", " <-- E"))
    got = get_numbers(text)
    if got != toks:
        raise Violation(f"numbers of {text!r}: {got!r}, expected {toks!r}")
    return f"{len(toks)}"


def long_line(c):
    """Five (thorough) numbers side by side."""
    return row(c, 5 if c.deep else 4, ("-12", "1.5", "-.5", "1.0E-10", "-7."), (" ", "", "|"))


def strings(c):
    """Every short string over the letters of numbers: its type and value agree with the grammar, or it stays text."""
    from castep_outputs.utilities.type_conv import determine_type, to_type
    alphabet = "12.-+eD/ xTF"
    s = "".join(c.pick("head", ["".join(t) for n in range(3) for t in product(alphabet, repeat=n)]))
    for k in range(4 if c.deep else 2):
        ch = c.pick(f"c{k}", (*alphabet, ""))
        if not ch:
            break
        s += ch
    words = s.split()
    if s.title() in ("T", "True", "F", "False"):
        want, kind = s.title() in ("T", "True"), bool
    elif words and all(re.fullmatch(INT, w) for w in words):
        want, kind = [int(w) for w in words], int
    elif words and all(re.fullmatch(rf"{RATIO}|{DEXP}|{REAL}|{INT}", w) for w in words):
        kind = float
        try:
            want = [value(w) for w in words]
        except ZeroDivisionError:
            want = None
    else:
        want, kind = s, str
    got = determine_type(s)
    if got is not kind:
        raise Violation(f"type of {s!r} is {got.__name__}, expected {kind.__name__}")
    if kind is bool:
        val = to_type(s, bool)
    elif kind is str:
        val = to_type(s, str)
    elif want is None:
        return "ratio by zero"
    else:
        val = list(to_type(words, kind))
    if val != want:
        raise Violation(f"value of {s!r} is {val!r}, expected {want!r}")
    return kind.__name__


def text_kept(c):
    """Conversion to a number refuses text that is none (it never returns a number)."""
    from castep_outputs.utilities.type_conv import to_type
    alphabet = "12.-+ed/x,"
    s = "".join(c.pick("head", ["".join(t) for n in range(3) for t in product(alphabet, repeat=n)]))
    for k in range(3 if c.deep else 2):
        ch = c.pick(f"c{k}", (*alphabet, ""))
        if not ch:
            break
        s += ch
    for typ, grammar in ((int, INT), (float, rf"{RATIO}|{DEXP}|{REAL}|{INT}")):
        good = re.fullmatch(grammar, s)
        try:
            got = to_type(s, typ)
        except (ValueError, ZeroDivisionError):
            if good and not re.search(r"/0+$", s):
                raise Violation(f"to_type({s!r}, {typ.__name__}) refused") from None
            continue
        if not good or got != (int(s) if typ is int else value(s)):
            raise Violation(f"to_type({s!r}, {typ.__name__}) = {got!r}")
    return "ok"


ATOMS = {int: (("7", 7), ("-3", -3), ("+12", 12), ("007", 7)),
         float: (("1.5", 1.5), ("1/3", 1 / 3), ("-2D-3", -2e-3), ("7", 7.0), (".5", .5)),
         bool: tuple((s, v) for word, v in (("T", True), ("True", True), ("F", False), ("False", False)) for s in (word, word.lower(), word.upper())) + (("1", True), ("0", False)),
         complex: (("1+2j", 1 + 2j), ("3", 3 + 0j)), str: (("abc", "abc"), ("1.5", "1.5"), ("", ""))}


def shape(c, typ, depth):
    """Nested input and its expected conversion."""
    kind = c.pick(f"kind{depth}", ("text", "list", "tuple", "dict", "generator", "none", "number") if depth else ("text", "number"))
    if kind == "text":
        return c.pick("atom", ATOMS[typ])
    if kind == "none":
        return None, None
    if kind == "number":
        return 4.5, 4.5
    n = c.pick("n", range(3) if depth == 2 and typ is not bool or c.deep else range(2))
    items = [shape(c, typ, depth - 1) for _ in range(n)]
    if kind == "dict":
        return {f"k{i}": a for i, (a, _) in enumerate(items)}, {f"k{i}": b for i, (_, b) in enumerate(items)}
    src = [a for a, _ in items]
    return {"list": src, "tuple": tuple(src), "generator": iter(src)}[kind], tuple(b for _, b in items)


def equal(a, b):
    if isinstance(b, tuple):
        return type(a) is tuple and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(b, dict):
        return type(a) is dict and list(a) == list(b) and all(equal(a[k], b[k]) for k in b)
    return same(a, b)


def convert(c):
    """Vectors, mappings and nested data convert element by element."""
    from castep_outputs.utilities.type_conv import fix_data_types, to_type
    typ = c.pick("type", (int, float, bool, str, complex))
    data, want = shape(c, typ, 2)
    if c.flag("in place"):
        d = {"a": data, "other": "1.5", "b": None}
        fix_data_types(d, {"a": typ, "missing": typ})
        if list(d) != ["a", "other", "b"] or not equal(d["a"], want) or d["other"] != "1.5" or d["b"] is not None:
            raise Violation(f"fix_data_types to {typ.__name__}: {d!r}, expected {want!r}")
        return "in place"
    got = to_type(data, typ)
    if not equal(got, want):
        raise Violation(f"to_type({data!r}, {typ.__name__}) = {got!r}, expected {want!r}")
    return "ok"


def mixed(c):
    """Lists of numbers: integers if all are, reals otherwise."""
    from castep_outputs.utilities.type_conv import parse_int_or_float
    toks = [t for i in range(4) if (t := c.pick(f"t{i}", ("7", "012", "1.5", "-2", "1e3", ".5", "3.", None))) is not None]
    toks = c.pick("as", (list, tuple))(toks)
    got = parse_int_or_float(toks)
    want = tuple(int(t) for t in toks) if all(t.lstrip("-").isdigit() for t in toks) else tuple(value(t) for t in toks)
    if not isinstance(got, tuple) or got != want or [type(x) for x in got] != [type(x) for x in want]:
        raise Violation(f"parse_int_or_float({toks!r}) = {got!r}, expected {want!r}")
    return "ok"


def labelled(c):
    """Labelled values of a line go to their labels."""
    from castep_outputs.utilities.castep_res import labelled_floats
    sep, glue = c.pick("sep", ((None, " "), (None, "     "), (None, "\t"), (":", ":"), (r"\s*,\s*", " , "), (r"\s*", ""), (r"\s*", "  ")))
    suffix = c.pick("suffix", ("", "%")) if sep is None else ""
    n = c.pick("labels", (1, 2, 3))
    labels = [f"l{i}" for i in range(n)]
    counts = None if suffix else c.pick("counts", (None, (2,), (3,), (None, 2))[:None if n > 1 else 3])
    cnt = [(counts[i] if counts and i < len(counts) and counts[i] else 1) for i in range(n)]
    if sep == r"\s*" and glue == "":
        pool = ("-0.25", "-1.5E-03", "-12")
    else:
        pool = ("1.5", "-0.25", "3", "-1.5E-03", ".5", "2.")
    vals = [[c.pick(f"v{i}{j}", pool if i == 0 and j == 0 else pool[:2]) for j in range(cnt[i])] for i in range(n)]
    text = "".join(glue + v + suffix for vs in vals for v in vs)
    kw = {"suffix": suffix} | ({"sep": sep} if sep else {}) | ({"counts": counts} if counts else {})
    m = re.search("x" + labelled_floats(labels, **kw) + r"\s*y", "x" + text + " y")
    if m is None:
        raise Violation(f"{text!r} not matched by {kw}")
    for lab, vs in zip(labels, vals):
        got = m[lab]
        want = "".join(glue + v for v in vs) if len(vs) > 1 or (counts and counts[min(labels.index(lab), len(counts) - 1)] and labels.index(lab) < len(counts)) else vs[0]
        if got != want:
            raise Violation(f"{lab} of {text!r} is {got!r}, expected {want!r}", {"options": str(kw)})
    return "ok"


def bytes_(c):
    """Big-endian records."""
    import struct
    from castep_outputs.utilities.type_conv import parse_bytes
    typ, fmt, pool = c.pick("type", ((int, ">i", (0, 1, -1, 2**31 - 1, -2**31)), (float, ">d", (0.0, 1.5, -1e300, 5e-324)),
                                     (bool, ">i", (True, False)), (complex, None, (1 + 2j, -0.5j, 0j)), (str, None, ("", "abc", " x "))))
    n = 1 if typ is str else c.pick("n", range(4))
    vals = tuple(c.pick(f"v{i}", pool) for i in range(n))
    if typ is str:
        raw = vals[0].encode()
    elif typ is complex:
        raw = b"".join(struct.pack(">dd", v.real, v.imag) for v in vals)
    else:
        raw = b"".join(struct.pack(fmt, v) for v in vals)
    many = parse_bytes(raw, (typ, ...))
    if many != vals or any(type(a) is not typ for a in many):
        raise Violation(f"{raw!r} as {typ.__name__}s: {many!r}, expected {vals!r}")
    try:
        one = parse_bytes(raw, typ)
    except Exception:
        if n == 1:
            raise Violation(f"{raw!r} as one {typ.__name__} refused") from None
        return "refused"
    if n != 1 or one != vals[0]:
        raise Violation(f"{raw!r} as one {typ.__name__}: {one!r}")
    return "ok"


MODELS = [("token", token, 0, 0), ("line", line, 0, 0), ("long_line", long_line, 0, 0), ("strings", strings, 0, 0), ("text_kept", text_kept, 0, 0),
          ("convert", convert, 0, 0), ("mixed", mixed, 0, 0), ("labelled", labelled, 0, 0), ("bytes", bytes_, 0, 0)]
