"""Every output format read back, for every small nested value and for the data of every kind of document."""
import copy
import io
import json
import math
import os
import shutil
import tempfile
from collections import defaultdict
from pathlib import Path

from mc import castep, docs
from mc.core import Violation
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed

ASSUMPTIONS = ["YAML documents are read by the (unsafe) loader of the engine that wrote them; print and pprint are for people: only their completing without changing the data and, for print, their text is checked",
               "composite keys are of the shapes parsers produce: tuples of names and numbers, or tuples of (species, index) pairs, species without underscore"]

FORMATS = ("json", "ruamel", "pyyaml", "yaml", "pprint", "print")
DIR = {}


def setup(deep):
    DIR["root"] = Path(tempfile.mkdtemp(prefix="mc-c03-"))
    DIR["docs"] = [*docs.corpus(), *docs.corpus(docs.BINARY)]


def teardown():
    shutil.rmtree(DIR["root"])


# ---------------------------------------------------------------- references

def key_json(k):
    if isinstance(k, (tuple, list)):
        return "_".join(str(y) for x in k for y in (x if isinstance(x, tuple) else (x,)))
    return {None: "null", True: "true", False: "false"}[k] if k is None or isinstance(k, bool) else str(k)


def want_json(obj):
    if isinstance(obj, dict):
        return {key_json(k): want_json(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [want_json(v) for v in obj]
    if isinstance(obj, complex):
        return {"real": obj.real, "imag": obj.imag}
    return obj


def same(a, b, exact=False):
    """Equal data of equal types (sequences: tuples as lists unless exact)."""
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and all(k in a and same(a[k], b[k], exact) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and math.isnan(a)
    if isinstance(b, complex):
        return isinstance(a, complex) and repr(a) == repr(b) or a == b and isinstance(a, complex)
    return type(a) is type(b) and a == b


def keys_in_order(a, b):
    if isinstance(b, dict):
        return list(map(str, a)) == list(map(str, b)) and all(keys_in_order(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(b, (list, tuple)):
        return all(keys_in_order(x, y) for x, y in zip(a, b))
    return True


def load(fmt, text):
    if fmt == "json":
        return json.loads(text)
    if fmt in ("ruamel", "yaml"):
        from ruamel.yaml import YAML
        return YAML(typ="unsafe").load(text)
    if fmt == "pyyaml":
        import yaml
        return yaml.unsafe_load(text)
    raise ValueError(fmt)


def verify(fmt, text, data, what):
    if fmt in ("print", "pprint"):
        if not text.endswith("\n") or fmt == "print" and text != f"{data}\n":
            raise Violation(f"{fmt} document of {what} is {text!r}"[:900])
        return
    try:
        got = load(fmt, text)
    except Exception as err:
        raise Violation(f"{fmt} document of {what} cannot be read: {type(err).__name__}: {err}"[:400], {"text": text[:4000]}) from None
    want = want_json(data) if fmt == "json" else data
    if not same(got, want):
        raise Violation(f"{fmt} document of {what} reads back as {got!r}, expected {want!r}"[:900], {"text": text[:4000]})
    if fmt == "json" and not keys_in_order(got, want):
        raise Violation(f"{fmt} document of {what} has its keys in another order")


def through(data, fmt, what):
    """The way of the command line: parse_single, then the dumper."""
    from castep_outputs.cli.castep_outputs_main import parse_single
    from castep_outputs.utilities.dumpers import get_dumpers
    before = copy.deepcopy(data)
    given = []

    def parser(_file):
        given.append(data)
        return data
    ready = parse_single(io.StringIO(""), parser, fmt)
    if not given:
        raise Violation("the given parser was not used")
    if repr(data) != repr(before):
        raise Violation(f"preparing {before!r} for {fmt} changed it to {data!r}"[:600])
    shown = copy.deepcopy(ready)
    out = io.StringIO()
    get_dumpers(fmt)(ready, out)
    if repr(ready) != repr(shown):
        raise Violation(f"dumping {shown!r} as {fmt} changed it to {ready!r}"[:600])
    verify(fmt, out.getvalue(), before, what)
    return fmt


# ---------------------------------------------------------------- values

LEAVES = (0, -7, 12345678901234567890, 0.0, 1.5, -1e-10, 1e22, 1e300, 5e-324, 0.1, 1 + 2j, -0.5j, 0j, True, False, None, "", "x", "yes", "null", "~",
          "1", "1.0", "1e5", "1e-5", "1:30", "a: b", "- a", "# c", "x # y", "[1]", "{a}", "'q'", '"', "line\nbreak", "tab\t", " lead", "trail ", "\u00c5ngstr\u00f6m",
          "%", "&a", "*a", "!t", "|", ">", "@", "0x1F", "012", "2024-01-01", "=", "<<", "T", "off", "long " * 40, "\\n", "\u2028", ".5", "1_000", "nan", ".inf")
INF = (math.inf, -math.inf, math.nan)
KEYS = ("a", "x y", "1", "null", "", "yes", ("Si", 1), ("Si:tag", 12), (("H", 1), ("O", 2)), (("Fe:a", 1), ("H", 10), ("O", 3)), (3, 12), (0.0, 0.5, 1.0), ("H",), ("H", "He", "H"), 7, -1, None,
        "a: b", "\u00c5", "key\nbreak", "# k", "1e5", (("Si [x]", 1),))


def scalars(c):
    """Every kind of leaf in every simple place."""
    fmt = c.pick("format", FORMATS)
    leaf = c.pick("leaf", LEAVES + (INF if fmt in ("json", "ruamel", "yaml", "pyyaml") else ()))
    place = c.pick("place", ("bare", "list", "tuple", "dict", "deep", "run", "pair"))
    data = {"bare": leaf, "list": [leaf], "tuple": (leaf,), "dict": {"k": leaf}, "deep": [{"a": ({"b": [leaf]},)}], "run": ({"v": leaf}, {"v": leaf}),
            "pair": {"v": (leaf, leaf), "w": [[leaf]]}}[place]
    return through(data, fmt, repr(data)[:200])


def keyed(c):
    """Every pair of keys in one mapping, shallow or deep."""
    fmt = c.pick("format", FORMATS)
    i = c.pick("first", range(len(KEYS)))
    j = c.pick("second", range(i, len(KEYS)))
    a, b = KEYS[i], KEYS[j]
    if fmt == "json" and i != j and key_json(a) == key_json(b):
        return "same text"
    inner = {a: 1, b: 2} if i != j else {a: c.pick("value", (1, (1, 2), {}, {"n": [1]}, {a: {a: 1}}))}
    where = c.pick("where", ("top", "in list", "in dict", "default"))
    data = {"top": inner, "in list": [inner], "in dict": {"d": {"e": inner}}, "default": defaultdict(list, inner)}[where]
    return through(data, fmt, repr(data)[:200])


def shape(c, depth, seen):
    kind = c.pick(f"k{depth}", ("leaf", "dict", "list", "tuple") if depth else ("leaf",))
    if kind == "leaf":
        seen.append(0)
        return (1.5, "s", 2j, 7)[len(seen) % 4]
    n = c.pick("n", range(4 if c.deep else 3))
    items = [shape(c, depth - 1, seen) for _ in range(n)]
    if kind == "dict":
        return dict(zip(c.pick("keys", (("a", "b", "c"), (("Si", 1), ("Si", 2), ("O", 1)), ((("H", 1), ("O", 1)), (("H", 1), ("O", 2)), (("H", 2), ("O", 2))))) if n else (), items))
    return items if kind == "list" else tuple(items)


def shapes(c):
    """Every nesting of mappings and sequences."""
    data = shape(c, 2, [])
    return through(data, c.pick("format", FORMATS[:3]), repr(data)[:200])


def shared(c):
    """The same list or mapping standing in several places."""
    fmt = c.pick("format", FORMATS)
    part = c.pick("part", ([1, 2], {"a": 1}, ("x", 1), {("Si", 1): 2j}, [], {}))
    data = c.pick("in", ({"a": part, "b": part}, [part, part], {"a": [part], "b": {"c": part}}))
    return through(data, fmt, repr(data))


# ---------------------------------------------------------------- documents

EXT = {"parse_md_geom_file": "md", "parse_bands_file": "bands", "parse_hug_file": "hug", "parse_phonon_dos_file": "phonon_dos", "parse_efield_file": "efield",
       "parse_xrd_sf_file": "xrd_sf", "parse_elastic_file": "elastic", "parse_ts_file": "ts", "parse_magres_file": "magres", "parse_tddft_file": "tddft",
       "parse_err_file": "err", "parse_phonon_file": "phonon", "parse_epme_file": "epme", "parse_cell_file": "cell", "parse_param_file": "param",
       "parse_cell_param_file": "cell", "parse_elf_fmt_file": "elf_fmt", "parse_chdiff_fmt_file": "chdiff_fmt", "parse_pot_fmt_file": "pot_fmt",
       "parse_den_fmt_file": "den_fmt", "parse_cst_esp_file": "cst_esp", "parse_epme_bin_file": "epme_bin", "parse_castep_file": "castep"}


def write(ext, text, name="f"):
    d = Path(tempfile.mkdtemp(dir=DIR["root"]))
    path = d / f"{name}.{ext}"
    path.write_bytes(text) if isinstance(text, bytes) else path.write_text(text)
    return path


def emit(path, ext, fmt, where):
    from castep_outputs.cli.castep_outputs_main import parse_all
    if where == "stream":
        out = io.StringIO()
        parse_all(out, fmt, **{ext: [path]})
        return out.getvalue()
    if where == "screen":
        import contextlib
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            parse_all(None, fmt, **{ext: [path]})
        return out.getvalue()
    dest = path.with_suffix(".out")
    parse_all(str(dest) if where == "name" else dest, fmt, **{ext: [path]})
    return dest.read_text()


def same_doc(path, ext, fmt, where, what):
    from castep_outputs.cli.castep_outputs_main import ALL_PARSERS
    try:
        try:
            data = ALL_PARSERS[ext](path)
        except Exception:
            return "unparsable"
        verify(fmt, emit(path, ext, fmt, where), data, what)
    finally:
        shutil.rmtree(path.parent)
    return fmt


def documents(c):
    """Documents of every other format through the generic entry, to a stream, the screen or a file."""
    label, fn, text = c.pick("doc", DIR["docs"])
    ext = EXT[fn.__name__]
    fmt = c.pick("format", FORMATS)
    where = c.pick("to", ("stream", "screen", "name", "path") if c.deep else ("stream", "path"))
    return same_doc(write(ext, text), ext, fmt, where, label)


def sections(c):
    """Every section of the main output."""
    name = c.pick("section", list(SECTIONS))
    w = Writer(Fixed(0))
    lines = [*castep.fixed("build_info", w)[0], *castep.fixed("energies", w)[0], *castep.fixed(name, w, c.pick("variant", (0, 1, -1) if c.deep else (0, -1)))[0]]
    return same_doc(write("castep", castep.text_of(lines)), "castep", c.pick("format", FORMATS if c.deep else ("json", "ruamel", "pyyaml", "print")), "stream", name)


MODELS = [(f.__name__, f, 0, 0) for f in (scalars, keyed, shapes, shared, documents, sections)]
