"""Keywords of .cell and .param files."""
import io

from castep_outputs import parse_cell_file, parse_cell_param_file, parse_param_file

from mc.compare import canon, diff, show
from mc.core import Violation, fmt_exc

INTS = [("3600", 3600), ("+5", 5), ("-2", -2), ("0", 0), ("1", 1)]
REALS = [("0.5", 0.5), (".5", 0.5), ("5.", 5.0), ("-.25", -0.25), ("+1.25", 1.25), ("-3.0", -3.0), ("1e-3", 1e-3), ("1E+05", 1e5), ("2.5e2", 250.0),
         ("1.0d-5", 1e-5), ("1D2", 100.0), ("-2.5D+3", -2500.0), (".5d0", 0.5), ("5.d1", 50.0), ("1/3", 1 / 3), ("-2/3", -2 / 3), ("4/2", 2.0),
         ("0.000000001", 1e-9), ("123456789.125", 123456789.125), ("1.7976931348623157E308", 1.7976931348623157e308)]
VECTORS = [("1 1 -1", [1, 1, -1]), ("10 10 10", [10, 10, 10]), ("0 0.25 0.25", [0.0, 0.25, 0.25]), ("1/3 2/3 0", [1 / 3, 2 / 3, 0.0]),
           ("-1/3  1.0d-1   .5", [-1 / 3, 0.1, 0.5]), ("1.0\t2.0\t3.0", [1.0, 2.0, 3.0]), ("2 3", [2, 3]), ("0.5 1", [0.5, 1.0]),
           ("0 0 0", [0, 0, 0]), ("1 2 1", [1, 2, 1]), ("1 " * 60 + "2", [1] * 60 + [2]), ("0.123456789 " * 20 + "-1.5", [0.123456789] * 20 + [-1.5])]
LOGICALS = [("T", True), ("F", False), ("true", True), ("FALSE", False), ("tRuE", True), ("t", True), ("f", False), ("False", False)]
TEXTS = ["SPEED", "e", "aa.bbb", "test.check", "This is a multi word comment.", "3D graphene sheet", "2H2O", "1.5abc", "../dir/x.check", ".hidden", "-x",
         "cold-smearing", "/abs/path", "a=b:c", "nan", "infinity", "1_000", "1-2", "1.2.3", "TRUEISH", "Ti", "d0", "1/x", "H2O/ice 3", "1/2/3", "12:30",
         "x  y", "10,10,10", "0x10", "+", "1e", "1d5x", "x" * 300, "a long comment of many words " * 9 + "end", "/scratch/" + "directory/" * 25 + "file.check"]
UNITS = ["eV", "1/Ang", "GPa", "ang**3", "K", "hartree/bohr**3", "e", "1/cm"]
SEPS = [" : ", ":", "=", " = ", " ", "   ", "\t", " :", "= ", "\t:\t"]
KEYS = ["task", "cut_off_energy", "sedc_s6_g06", "x", "nlxc_ppd_size_x", "md_ion_t"]
NOISE = ["", "\n", "# comment : 1\n", "  ! cut_off_energy = 3 eV\n", "   \t\n", "#%BLOCK LATTICE_ABC\n", "!\n"]
TAIL = ["", " ", "  # note : 2", "! note", "\t", " #", "! T"]
FNS = [parse_param_file, parse_cell_file, parse_cell_param_file]


def spell_key(c, key, n=""):
    return c.dev(f"case{n}", [str, str.upper, str.title])(key)


def run(c, text, exp):
    fn = c.dev("entry", FNS)
    try:
        got = canon(fn(io.StringIO(text)))
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": text}) from None
    d = diff([exp], got)
    if d:
        raise Violation(show(d), {"text": text, "got": repr(got)})


def value(c, n="", kinds=("int", "real", "vector", "logical", "text", "quantity")):
    kind = c.pick(f"kind{n}", kinds)
    if kind == "text":
        v = c.pick(f"value{n}", TEXTS)
        return v, v
    text, v = c.pick(f"value{n}", {"int": INTS, "real": REALS, "vector": VECTORS, "logical": LOGICALS, "quantity": INTS[:3] + REALS + VECTORS[:4]}[kind])
    if kind == "quantity":
        u = c.pick(f"unit{n}", UNITS)
        return text + c.dev(f"gap{n}", [" ", "   ", "\t"]) + u, [v, u]
    return text, v


def single(c):
    """One keyword: every value with every separator; case, comments, indent and surroundings as deviations."""
    key = c.dev("key", KEYS)
    text, v = value(c)
    line = c.dev("before", NOISE) + c.dev("indent", ["", "  ", "\t"]) + spell_key(c, key) + c.pick("sep", SEPS) + text + c.dev("tail", TAIL)
    run(c, line + c.dev("end", ["\n", "", "\n\n# end\n", "\n    "]), {key: v})


SMALL = [("3600", 3600), ("-2", -2), ("0.5", 0.5), ("1.0d-5", 1e-5), ("1/3", 1 / 3), ("1 1 -1", [1, 1, -1]), ("0 0.5 1", [0.0, 0.5, 1.0]), ("T", True),
         ("false", False), ("500 eV", [500, "eV"]), ("0.25 1/Ang", [0.25, "1/Ang"]), ("SPEED", "SPEED"), ("two words", "two words"), ("3D x", "3D x")]


def several(c):
    """Several keywords: all value combinations, noise between them."""
    n = 3
    exp, text = {}, ""
    keys = c.pick("keys", [KEYS[:3], KEYS[3:], ["cut_off", "cut_off_energy", "energy"]])
    for i in range(n):
        t, v = c.pick(f"value{i}", SMALL)
        exp[keys[i]] = v
        text += c.dev(f"noise{i}", NOISE) + spell_key(c, keys[i], i) + c.dev(f"sep{i}", SEPS) + t + c.dev(f"tail{i}", TAIL) + "\n"
    run(c, text, exp)


WORDS = ["yes", "no", "on", "off", "Tr", "Fals", "TT", "truef", "t.", "T F", "F T", "true false", "F_", "TRUE1", "0T", "none"]


def logicals(c):
    """Words near to logicals: Fortran's dotted spelling means what it says (or stays text), other words stay text."""
    fn, sep, tail = c.pick("entry", FNS), c.pick("sep", SEPS[:5]), c.pick("tail", TAIL)
    if c.pick("dotted", (True, False)):
        text, v = c.pick("value", [(f(d), b) for d, b in ((".true.", True), (".false.", False), (".t.", True), (".f.", False)) for f in (str.lower, str.upper, str.title)])
        exp = (text, v)
    else:
        text = c.pick("value", WORDS)
        exp = (text, [x[0] in "Tt" for x in text.split()]) if " " in text else (text,)
    line = f"spin_polarised{sep}{text}{tail}\n"
    try:
        got = canon(fn(io.StringIO(line)))
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": line}) from None
    if not any(not diff([{"spin_polarised": e}], got) for e in exp):
        raise Violation(f"{text!r} became {got}", {"text": line})


MODELS = [("logicals", logicals, 0, 0), ("single", single, 1, 3), ("several", several, 1, 2)]
