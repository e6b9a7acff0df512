"""Every way of handing a document over, for every format, gives what the parser of that format gives on a stream."""
import importlib
import io
import os
import shutil
import tempfile
from pathlib import Path

from mc import castep, docs
from mc.core import Hang, Violation, fmt_exc
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed
from checks.C03 import same

ASSUMPTIONS = ["documents are those of the writer models of the other checks (default spellings) plus one main output per section and variant, and appended runs",
               "text handles for the text formats, binary handles for the binary formats, opened at their start"]
DIR = {}
# format name -> name of the documented parser function
FORMATS = {**{n: f"parse_{n}_file" for n in (
    "castep", "cell", "param", "bands", "hug", "phonon_dos", "efield", "xrd_sf", "elf_fmt", "chdiff_fmt", "pot_fmt",
    "den_fmt", "elastic", "ts", "magres", "tddft", "err", "phonon", "epme")},
    "md": "parse_md_geom_file", "geom": "parse_md_geom_file",
    "cst_esp": "parse_cst_esp_file", "epme_bin": "parse_epme_bin_file"}
BINARY = {"cst_esp", "epme_bin"}


def corpus(variants=2):
    """format name -> [(label, content)]."""
    out = {n: [] for n in FORMATS}
    by_fn = {}
    for ext, fn in FORMATS.items():
        by_fn.setdefault(parser(fn), []).append(ext)
    for label, fn, content in [*docs.corpus(), *docs.corpus(docs.BINARY)]:
        for ext in by_fn.get(fn, ()):
            out[ext].append((label, content))
    w = Writer(Fixed(0))
    runs = []
    for name in SECTIONS:
        for i in range(variants):
            try:
                text = castep.text_of(castep.fixed(name, w, i)[0])
            except Exception:
                continue
            out["castep"].append((f"{name}{i}", text))
    head = castep.fixed("build_info", w)[0]
    for i in range(2):
        runs += [*head, *castep.fixed("energies", w, i)[0]]
    out["castep"].append(("runs", castep.text_of(runs)))
    return {n: [d for i, d in enumerate(ds) if d[1] not in [x[1] for x in ds[:i]]] for n, ds in out.items()}


def parser(name):
    return getattr(importlib.import_module("castep_outputs"), name)


def setup(deep):
    DIR["root"] = Path(tempfile.mkdtemp(prefix="mc-c01-"))
    DIR["docs"] = corpus(3 if deep else 1)
    for n, ds in DIR["docs"].items():
        assert ds, f"no documents of format {n}"


def teardown():
    shutil.rmtree(DIR["root"])


def stream(content):
    return io.BytesIO(content) if isinstance(content, bytes) else io.StringIO(content)


def outcome(fn, *args, **kw):
    try:
        return "data", fn(*args, **kw)
    except (Violation, Hang):
        raise
    except Exception as err:
        return "error", type(err).__name__, fmt_exc(err)


def agree(what, want, got, text):
    if want[0] != got[0]:
        raise Violation(f"{what}: {want[0]} from a stream but {got[0]} {got[1:] if got[0] == 'error' else ''}", {"text": text, "stream": repr(want)[:3000], "got": repr(got)[:3000]})
    if want[0] == "data" and not (same(got[1], want[1], True) and same(want[1], got[1], True)):
        raise Violation(f"{what}: data differ from those of a stream", {"text": text, "stream": repr(want[1])[:3000], "got": repr(got[1])[:3000]})


def forms(c):
    fmt = c.pick("format", sorted(FORMATS))
    label, content = c.pick("document", DIR["docs"][fmt])
    from castep_outputs import parse_single
    fn = parser(FORMATS[fmt])
    want = outcome(fn, stream(content))
    if want[0] == "error":
        raise Violation(f"{fmt}: {label} not parsed: {want[2]}", {"text": content})
    binary = fmt in BINARY
    entry = c.pick("entry", ("direct", "single-ext", "single-name", "single-fn"))
    form = c.pick("form", ("str", "path", "handle", "stream", "relative"))
    if entry == "single-ext" and form in ("handle", "stream"):
        got = outcome(parse_single, stream(content))
        if got[0] != "error":
            raise Violation(f"{fmt}: parse_single guessed a parser for a nameless stream", {"text": content})
        return "refused"
    d = Path(tempfile.mkdtemp(dir=DIR["root"]))
    old = os.getcwd()
    try:
        # explicit parsers must win over what the name of the file says
        name = c.pick("name", (f"x.{fmt}", f"with dots-1.50 and blank.{fmt}")) if entry == "single-ext" else \
            c.pick("name", (f"x.{fmt}", "noext", "x.cell" if fmt != "cell" else "x.castep"))
        p = d / name
        p.write_bytes(content) if binary else p.write_text(content, newline="")
        before = p.read_bytes()
        opened = None
        if form in ("str", "path"):
            arg = str(p) if form == "str" else p
        elif form == "relative":
            os.chdir(d)
            arg = name
        elif form == "handle":
            arg = opened = p.open("rb" if binary else "r")
        else:
            arg = stream(content)
        if entry == "direct":
            got = outcome(fn, arg)
        elif entry == "single-ext":
            got = outcome(parse_single, arg)
        elif entry == "single-name":
            got = outcome(parse_single, arg, fmt)
        else:
            got = outcome(parse_single, arg, fn)
        if opened:
            opened.close()
        agree(f"{fmt} ({entry}, {form}, {name})", want, got, content)
        if p.read_bytes() != before:
            raise Violation(f"{fmt} ({entry}, {form}): the file was changed")
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    return "equal"


def filtered(c):
    """The filter argument of the main output means the same in every form of handing the file over."""
    from castep_outputs.parsers.castep_file_parser import Filters
    label, content = c.pick("document", DIR["docs"]["castep"])
    name = c.pick("filters", ("NONE", "LOW", "MEDIUM", "HIGH", "FULL", "TESTING", "SCF", "CELL", "FORCE|STRESS", "PSPOT", "POPN_ANALYSIS", "PARAMETERS", "MD|GEOM_OPT"))
    filters = Filters.NONE
    for n in name.split("|"):
        filters |= getattr(Filters, n)
    fn = parser("parse_castep_file")
    want = outcome(fn, stream(content), filters=filters)
    path = DIR["root"] / f"f{os.getpid()}.castep"
    path.write_text(content, newline="")
    for pos in (True, False):
        for form, arg in (("str", str(path)), ("path", path), ("handle", path.open()), ("stream", stream(content))):
            got = outcome(fn, arg, filters) if pos else outcome(fn, arg, filters=filters)
            if form == "handle":
                arg.close()
            agree(f"castep ({form}, filters {name} {'by position' if pos else 'by keyword'})", want, got, content)
    return "equal"


def wrapped(c):
    """Parsers that take a FileWrapper or a Block see what a stream of the same lines gives them."""
    from castep_outputs.utilities.filewrapper import Block, FileWrapper
    fmt = c.pick("format", ("castep", "md", "geom"))
    label, content = c.pick("document", DIR["docs"][fmt])
    fn = parser(FORMATS[fmt])
    want = outcome(fn, stream(content))
    how = c.pick("form", ("FileWrapper", "Block"))
    arg = FileWrapper(stream(content)) if how == "FileWrapper" else Block.from_iterable(content.splitlines(True))
    agree(f"{fmt} ({how})", want, outcome(fn, arg), content)
    return "equal"


def names(c):
    """Format names: one set for the command line, the generic entry point and the explicit file options."""
    from castep_outputs import parse_single
    from castep_outputs.cli.args import get_parser
    sub = c.pick("what", ("cli", "unknown-ext", "unknown-name", "foreign"))
    d = Path(tempfile.mkdtemp(dir=DIR["root"]))
    try:
        if sub == "cli":
            fmt = c.pick("format", sorted(FORMATS))
            form = c.pick("option", ("--inc-", "--"))
            label, content = DIR["docs"][fmt][0]
            p = d / f"x.{fmt}"
            p.write_bytes(content) if fmt in BINARY else p.write_text(content)
            got = outcome(get_parser().parse_args, [f"{form}{fmt}"] if form == "--inc-" else [f"--{fmt}", str(p)])
            if got[0] == "error":
                raise Violation(f"{form}{fmt} refused: {got[2]}")
            agree(f"{fmt} by name", outcome(parser(FORMATS[fmt]), stream(content)), outcome(parse_single, p, fmt), content)
            return "known"
        bad = c.pick("name", ("castepx", "cas", "xyz", "CASTEP", "json", "", "cell ", "phonon_do", "epme_", "fmt", "sf", "dos", "_file", "parse_castep_file"))
        if sub == "unknown-name":
            p = d / c.pick("file", ("x.castep", "x.cell", "noext"))
            p.write_text(DIR["docs"]["castep"][0][1])
            got = outcome(parse_single, c.pick("form", (p, str(p))), bad)
        elif sub == "unknown-ext":
            p = d / (f"x.{bad}" if bad else "castep")
            p.write_text(DIR["docs"]["castep"][0][1])
            got = outcome(parse_single, c.pick("form", (p, str(p))))
        else:
            # several suffixes: the last one decides
            first, last = c.pick("first", ("castep", "cell", "md")), c.pick("last", ("xyz", "bak", "castep1", "gz"))
            p = d / f"x.{first}.{last}"
            p.write_text(DIR["docs"][first][0][1])
            got = outcome(parse_single, p)
        if got[0] != "error":
            raise Violation(f"{sub} {bad!r} ({p.name}) was not refused: {repr(got[1])[:200]}")
        return "refused"
    finally:
        shutil.rmtree(d)


MODELS = [("forms", forms, 0, 0), ("filtered", filtered, 0, 0), ("wrapped", wrapped, 0, 0), ("names", names, 0, 0)]
