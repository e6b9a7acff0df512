"""A truncated output never yields data that the complete output would not."""
import io
import os
from pathlib import Path

from mc import castep, docs
from mc.compare import canon, submodel
from mc.core import Hang, Violation
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed
from mc.secs import ASSUME
from checks import C20, C22

ASSUMPTIONS = [*ASSUME, "text files are cut between lines, binary files at any byte; shipped sample files are read where present",
               "in a geometry optimisation, data printed before the first iteration may stand at the run or in the entry of the starting configuration"]

NAMES = list(SECTIONS)
MOVED = (("enthalpy",) * 2, ("scf",) * 2, ("forces",) * 2, ("stresses",) * 2, ("minimisation",) * 2)


def runs_of(fn, text, **kw):
    """Parsed data or None if an error is reported."""
    try:
        return canon(fn(io.StringIO(text) if isinstance(text, str) else io.BytesIO(text), **kw))
    except (Violation, Hang):
        raise
    except Exception:
        return None


def relocate(part, whole):
    """Data of `part` that the complete run holds in the entry of the starting configuration."""
    its = whole.get("geom_opt", {}).get("iterations") if isinstance(whole.get("geom_opt"), dict) else None
    if not its or part.get("geom_opt", {}).get("iterations"):
        return whole
    return {**whole, **{k: v for k, v in its[0].items() if k in ("enthalpy", "scf", "forces", "stresses", "minimisation")}}


def bare(obj):
    """Without empty containers (they carry no data)."""
    if isinstance(obj, dict):
        return {k: v for k, v in ((k, bare(v)) for k, v in obj.items()) if v not in ({}, [])}
    if isinstance(obj, list):
        return [bare(x) for x in obj]
    return obj


def texts(part, whole):
    """A warning cut short is the beginning of the complete one."""
    if "warning" in part and "warning" in whole and len(part["warning"]) <= len(whole["warning"]):
        part = {**part, "warning": [b if isinstance(a, str) and b.startswith(a) else a
                                    for a, b in zip(part["warning"], whole["warning"])]}
    return part


def part_of(part, whole):
    """Path of the first piece of `part` not in `whole` (main output: list of runs)."""
    part = bare(part)
    if isinstance(part, list) and isinstance(whole, list) and all(isinstance(x, dict) for x in part + whole):
        if len(part) > len(whole):
            return ("#len",)
        for i, (a, b) in enumerate(zip(part, whole)):
            bad = submodel(texts(a, b), relocate(a, b), (i,))
            if bad is not None:
                return bad
        return None
    return submodel(part, whole)


def cut(fn, text, at, full, what, known=(), **kw):
    part = runs_of(fn, text[:at], **kw)
    if part is None:
        return "error"
    bad = part_of(castep.prune(part) if kw else part, full)
    if bad is None:
        return "partial"
    for fid, pred in known:
        if pred(bad, part, full):
            raise Violation(f"{what}: {'/'.join(map(str, bad))}", {"text": text[:at]}, finding=fid)
    raise Violation(f"{what} cut after byte {at}: {'/'.join(map(str, bad))} is not in the data of the complete file",
                    {"text": text[:at] if isinstance(text, str) else repr(text[:at])[:3000], "got": repr(part)[:3000]})


def ends(text):
    """Every position after a complete line (not the end)."""
    out, pos = [0], 0
    for line in text.splitlines(keepends=True)[:-1]:
        pos += len(line)
        out.append(pos)
    return out


# ---------------------------------------------------------------- main output

def castep_cut(c, text, head=0):
    fn, _ = castep.api()
    kw = {"filters": castep.everything() if c.dev("filter", ("all", "default")) == "all" else castep.api()[1].HIGH}
    at = c.pick("cut", [p for p in ends(text) if p >= head])
    full = castep.prune(runs_of(fn, text, **kw))
    return cut(fn, text, at, full, "main output", KNOWN, **kw)


KNOWN = [("C23-berry-overwrite", lambda bad, part, full: bad[1:3] == ("berry_phase", "polarisation"))]


def section_cut(c):
    """Every section (with a header before and another section after it) cut after every line."""
    name = c.pick("section", [n for n in NAMES if n != "build_info"])
    w = Writer(Fixed(0))
    head = [*castep.fixed("build_info", w)[0], *castep.fixed("energies", w)[0]]
    body = castep.fixed(name, w, c.pick("variant", (0, -1)))[0]
    nxt = castep.fixed("title" if name != "title" else "mass", w)[0]
    text = castep.text_of([*head, *body, "", *nxt])
    return castep_cut(c, text, len(castep.text_of(head)))


def run_cut(c):
    """Realistic runs cut after every line, alone and after a completed run."""
    name = c.pick("run", sorted(n for n in C20.COMPOSITE if n != "empty"))
    w = Writer(Fixed(0))
    before = C20.body(w, C20.COMPOSITE["magres"])[0] if c.flag("after a run") else []
    if before and not c.deep and name in ("geom", "md"):
        return "thorough only"
    lines = C20.body(w, C20.COMPOSITE[name], c.pick("variant", (0, -1) if c.deep else (0,)))[0]
    return castep_cut(c, castep.text_of([*before, "", *lines]), len(castep.text_of(before)) if before else 0)


def pair_cut(c):
    """A section cut after every line, following another section."""
    names = C22.SHORT if c.deep else C22.SHORT[::5]
    a = c.pick("first", names)
    b = c.pick("second", [n for n in names if C22.compatible(a, n)])
    w = Writer(Fixed(0))
    la, lb = castep.fixed(a, w)[0], castep.fixed(b, w)[0]
    return castep_cut(c, castep.text_of([*la, "", *lb]), len(castep.text_of([*la, ""])))


def completed(c):
    """Runs completed before the cut are returned unchanged."""
    fn, _ = castep.api()
    kw = {"filters": castep.everything()}
    w = Writer(Fixed(0))
    first = C20.body(w, C20.COMPOSITE[c.pick("first", sorted(C20.COMPOSITE))])[0] + [""]
    second = C20.body(w, C20.COMPOSITE[c.pick("second", ("singlepoint", "magres", "pair"))])[0]
    done = castep.prune(runs_of(fn, castep.text_of(first), **kw))
    at = c.pick("cut", range(1, len(second), 1 if c.deep else 7))
    got = runs_of(fn, castep.text_of([*first, *second[:at]]), **kw)
    if got is None:
        return "error"
    bad = part_of(done, castep.prune(got)[:1]) or part_of(castep.prune(got)[:1], done)
    if bad is not None:
        raise Violation(f"completed run changed by a later, truncated one at {bad}", {"text": castep.text_of([*first, *second[:at]])})
    return "kept"


# ---------------------------------------------------------------- other formats

def other_docs():
    if not DOCS:
        DOCS.extend(docs.corpus())
    return DOCS


def binary_docs():
    if not BIN:
        BIN.extend(docs.corpus(docs.BINARY))
    return BIN


DOCS, BIN = [], []


def text_cut(c):
    """Documents of every other text format cut after every line."""
    label, fn, text = c.pick("doc", other_docs())
    full = runs_of(fn, text)
    if full is None:
        return "unparsable"
    return cut(fn, text, c.pick("cut", ends(text)), full, f"{label} ({fn.__name__})")


def samples():
    from castep_outputs.parsers import PARSERS
    root = Path(os.environ.get("CASTEP_REPO", "/repo"))
    out = []
    for path in sorted([*root.glob("test/data_files/test.*"), *root.glob("docs/source/example_data/*")]):
        fn = PARSERS.get(path.suffix[1:])
        if fn is None or path.name == "test.bands" or path.suffix in (".castep", ".cell", ".param"):
            continue
        try:
            text = path.read_text()
        except UnicodeDecodeError:
            continue
        if text.count("\n") <= 600:
            out.append((path.name, fn, text))
    return out


def sample_cut(c):
    """Sample files shipped with the repository cut after every line (test.bands is no valid file: it announces one
    spin component and prints two)."""
    label, fn, text = c.pick("file", samples())
    full = runs_of(fn, text)
    if full is None:
        return "unparsable"
    return cut(fn, text, c.pick("cut", ends(text)[::1 if c.deep else 11]), full, label)


def binary_cut(c):
    """Binary files cut after every byte (small ones) or around every record."""
    label, fn, data = c.pick("doc", [d for d in binary_docs() if c.deep or len(d[2]) < 3000])
    full = runs_of(fn, data)
    return cut(fn, data, c.pick("cut", range(0, len(data), 1 if len(data) < 3000 else 3)), full, f"{label} ({fn.__name__})")


def blanks(c):
    """Termination on long runs of blanks, alone or around text, between sections."""
    fn, _ = castep.api()
    n = c.pick("blanks", (300, 1000) if c.deep else (300,))
    line = c.pick("line", (" " * n, " " * n + "x", "x" + " " * n + "x", "Thermodynamics" + " " * n + "x",
                           " " * n + "-", "-" + " " * n, "+" + " " * n + "|"))
    w = Writer(Fixed(0))
    a, b = castep.fixed("energies", w)[0], castep.fixed("mass", w)[0]
    castep.parse(castep.text_of([*a, line, "", *b]))


MODELS = [("section_cut", section_cut, 1, 1), ("run_cut", run_cut, 0, 1), ("pair_cut", pair_cut, 0, 0),
          ("completed", completed, 0, 0), ("text_cut", text_cut, 0, 0), ("sample_cut", sample_cut, 0, 0), ("binary_cut", binary_cut, 0, 0), ("blanks", blanks, 0, 0)]
