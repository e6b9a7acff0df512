"""The command line on scratch directories: files selected, parsers used, document written, against a set model."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile
from pathlib import Path

from mc import castep, docs
from mc.core import Violation
from mc.gen import Writer
from mc.sections import Fixed
from checks import C03

ASSUMPTIONS = ["options stand before the seeds; the output file does not exist before; no file is named under two formats",
               "content of every file is the shortest document of its format of the document corpus"]

DIR, CONTENT, REF = {}, {}, {}


def setup(deep):
    from castep_outputs.cli.args import ALL_NAMES
    from castep_outputs.cli.castep_outputs_main import ALL_PARSERS
    DIR["root"] = Path(tempfile.mkdtemp(prefix="mc-c04-"))
    best = {}
    w = Writer(Fixed(0))
    corpus = [*docs.corpus(), *docs.corpus(docs.BINARY)]
    corpus.append(("castep", ALL_PARSERS["castep"], castep.text_of([*castep.fixed("build_info", w)[0], *castep.fixed("energies", w)[0]])))
    for _label, fn, text in corpus:
        for ext in ALL_NAMES:
            if ALL_PARSERS[ext] is fn or fn.__name__ == "parse_cell_param_file" and ext in ("cell", "param"):
                try:
                    if ALL_PARSERS[ext](io.StringIO(text) if isinstance(text, str) else io.BytesIO(text)):
                        best.setdefault(ext, []).append(text)
                except Exception:
                    continue
    for ext, texts in best.items():
        texts = sorted(set(texts), key=len)
        CONTENT[ext] = texts[0]
        CONTENT[ext, 2] = texts[min(1, len(texts) - 1)]
    DIR["names"] = [n for n in ALL_NAMES if n in CONTENT]


def teardown():
    shutil.rmtree(DIR["root"])


def notes():
    missing = [n for n in DIR.get("all", []) if n not in DIR["names"]]
    return [f"no documents for {missing}"] if missing else []


def put(path, ext, which=1):
    text = CONTENT[ext] if which == 1 else CONTENT[ext, 2]
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_bytes(text) if isinstance(text, bytes) else path.write_text(text)


def reference(path, ext):
    """What the parser of the format returns for the file."""
    from castep_outputs.cli.castep_outputs_main import ALL_PARSERS
    raw = Path(path).read_bytes()
    if (ext, raw) not in REF:
        REF[ext, raw] = ALL_PARSERS[ext](Path(path))
    return REF[ext, raw]


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(dir=DIR["root"]))
    old = Path.cwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def command(argv):
    """Run the command; returns what it printed."""
    from castep_outputs.cli.castep_outputs_main import main
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["castep_outputs", *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
    except SystemExit as e:
        raise Violation(f"castep_outputs {' '.join(argv)} exits with {e.code}: {err.getvalue()[-300:]}") from None
    finally:
        sys.argv = old
    return out.getvalue()


def norm(name):
    return os.path.normpath(name)


def judge(argv, want, fmt="json", dest=None):
    """`want` is {file name: format}; the document is compared after reading it back."""
    text = command(argv)
    if dest is not None:
        if text:
            raise Violation(f"castep_outputs {' '.join(argv)} prints besides writing its output file: {text[:200]!r}")
        text = Path(dest).read_text(encoding="utf-8")
        plain = command([a for i, a in enumerate(argv) if a not in ("-o", "--output") and not (i and argv[i - 1] in ("-o", "--output"))])
        if plain != text:
            raise Violation(f"castep_outputs {' '.join(argv)}: output file and screen differ")
    try:
        got = C03.load(fmt, text) if fmt not in ("print", "pprint") else text
    except Exception as e:
        raise Violation(f"castep_outputs {' '.join(argv)} emits no {fmt} document: {type(e).__name__} {e}"[:500], {"text": text[:2000]}) from None
    ref = {k: reference(k, ext) for k, ext in want.items()}
    if fmt == "print":
        if len(ref) == 1 and text != f"{next(iter(ref.values()))}\n":
            raise Violation(f"castep_outputs {' '.join(argv)} prints {text[:300]!r}")
        return fmt
    if fmt == "pprint":
        return fmt
    conv = C03.want_json if fmt == "json" else (lambda x: x)
    if len(ref) == 1:
        one = conv(next(iter(ref.values())))
        if not C03.same(got, one):
            raise Violation(f"castep_outputs {' '.join(argv)}: result of the only file {next(iter(want))} expected, got {got!r}"[:900])
        return "one"
    if not isinstance(got, dict):
        raise Violation(f"castep_outputs {' '.join(argv)}: no mapping of {sorted(want)}: {got!r}"[:900])
    names = {norm(k): v for k, v in got.items()}
    expect = {norm(k): conv(v) for k, v in ref.items()}
    if set(names) != set(expect) or len(names) != len(got):
        raise Violation(f"castep_outputs {' '.join(argv)} read {sorted(names)}, expected {sorted(expect)}")
    for k in expect:
        if not C03.same(names[k], expect[k]):
            raise Violation(f"castep_outputs {' '.join(argv)}: data of {k} are not those of its own parser: {names[k]!r}"[:900])
    return f"{len(expect)}"


# ---------------------------------------------------------------- models

SEEDS = ("seed", "seed.md", "sub/run.castep", "Fe.bands", "Fe.0001.err", "./seed", "sub/seed", "sub/deep/seed", "../{cwd}/seed", "{abs}/seed", "{abs}/sub/seed", "Si-1.50", "a.b.c", "seed[1]", "sub/s*d", "seed.out",
         "my seed", "castep", "S\u00ef")


def place(seed, d):
    return seed.format(cwd=d.name, abs=str(d))


def decoys(base, names):
    """Files that must not be read."""
    for other in ("seed2", "xseed", "seed-out", "Seed", "Si-1", "Si-1.5", "a", "a.b", "seed1", "sd", "sxd", "s"):
        p = base.with_name(other)
        if p.name == base.name:
            continue
        put(p.with_name(p.name + ".castep"), "castep", 2)
        put(p.with_name(p.name + ".md"), "md", 2)
        put(p.with_name(p.name + ".0001.err"), "err", 2)
    base.with_name(base.name + ".castep.bak").write_text("x")
    base.with_name(base.name + ".txt").write_text("x")
    base.with_name(base.name + "castep").write_text("x")
    put(base.with_name(base.name + "-0001.err"), "err", 2)


def files_of(seed, exts, nerr=0):
    """Create the files of a seed; returns {name: format}."""
    p = Path(seed)
    out = {}
    for ext in exts:
        path = p.with_name(f"{p.name}.{ext}")
        put(path, ext)
        out[str(path)] = ext
    for i in range(nerr):
        path = p.with_name(f"{p.name}.{i + 1:04d}.err")
        put(path, "err", i % 2 + 1)
        out[str(path)] = "err"
    return out


def selected(found, inc, every):
    return {k: v for k, v in found.items() if every or v in inc}


def seeds(c):
    """Every way of writing a seed, with files present and selected, decoys around."""
    with scratch() as d:
        seed = place(c.pick("seed", SEEDS), d)
        exts = c.pick("present", (("castep",), ("castep", "md"), ("castep", "cell", "param", "bands"), ("err", "castep"), ("cst_esp", "epme_bin", "castep")))
        nerr = c.pick("error files", (0, 1, 3))
        found = files_of(seed, exts, nerr)
        decoys(Path(seed), exts)
        inc = c.pick("inc", ((), ("castep",), ("err",), ("castep", "err"), ("md", "param"), ("all",), ("castep", "all"), ("cst_esp", "castep")))
        directory = c.flag("directory of that name")
        if directory:
            Path(seed).with_name(Path(seed).name + ".geom").mkdir()
        want = selected(found, inc, not inc or "all" in inc)
        return judge([*(f"--inc-{i}" for i in inc), seed], want)


def formats(c):
    """Every pair of formats present, every single selection."""
    with scratch():
        names = DIR["names"]
        i = c.pick("first", range(len(names)))
        j = c.pick("second", range(i, len(names)))
        found = files_of("seed", {names[i], names[j]})
        inc = c.pick("inc", ("none", "first", "second", "both", "other", "all"))
        sel = {"none": (), "first": (names[i],), "second": (names[j],), "both": (names[i], names[j]), "other": (names[(j + 1) % len(names)],), "all": ("all",)}[inc]
        return judge([*(f"--inc-{x}" for x in sel), "seed"], selected(found, sel, inc in ("none", "all")))


def everything(c):
    """All formats at once; all but one; output format and destination."""
    with scratch() as d:
        names = DIR["names"]
        out = c.pick("without", [None, *names])
        found = files_of("sub/seed", [n for n in names if n != out], 2)
        fmt = c.pick("format", C03.FORMATS)
        dest = c.pick("to", (None, "result.out", "sub/out.json", str(d / "x.yaml")))
        argv = ["-f", fmt] if fmt != "json" or c.flag("named") else []
        argv += ["-o", dest] if dest else []
        return judge([*argv, "sub/seed"], found, fmt, dest)


def explicit(c):
    """Files named explicitly under any format, with or without a seed, with or without selections."""
    with scratch():
        names = DIR["names"]
        ext = c.pick("format", names)
        name = c.pick("name", ("plain", f"x.{ext}", "other.castep", "odd.name.txt"))
        n = c.pick("files", (1, 2))
        want = {}
        paths = []
        for i in range(n):
            p = Path(f"d{i}") / name
            put(p, ext, i + 1)
            paths.append(str(p))
            want[str(p)] = ext
        argv = [f"--{ext}", *paths]
        if c.flag("also md"):
            put(Path("traj"), "md", 2)
            argv += ["--md", "traj"] if ext != "md" else []
            want |= {"traj": "md"} if ext != "md" else {}
        seed = c.pick("seed", (None, "seed", "nothing"))
        inc = c.pick("inc", ((), ("castep",), ("param",)))
        if seed:
            found = files_of("seed", ("castep", "cell"))
            argv += [f"--inc-{x}" for x in inc] or ["-L", "ERROR"]
            argv += [seed]
            if seed == "seed":
                want |= selected(found, inc, not inc)
        return judge(argv, want)


def several(c):
    """Several seeds, and seeds that are files, in any order."""
    with scratch() as d:
        kinds = {"seed": ("seed", files_of("seed", ("castep", "md"), 1)), "nested": ("sub/seed", files_of("sub/seed", ("castep", "bands"), 1)),
                 "dotted": ("Si.1", files_of("Si.1", ("cell",))), "file": ("run.castep", {"run.castep": "castep"}),
                 "nested file": ("sub/run.md", {"sub/run.md": "md"}), "missing": ("none", {}), "abs": (str(d / "seed3"), files_of(str(d / "seed3"), ("param", "castep"))),
                 "unknown ext": ("notes.txt", files_of("notes.txt", ("md",))), "err file": ("seed4.0001.err", {"seed4.0001.err": "err"}),
                 "both": ("two.cell", {"two.cell": "cell"}), "bin": ("f.cst_esp", {"f.cst_esp": "cst_esp"}),
                 "seed like a format": ("Fe.md", files_of("Fe.md", ("cell", "castep"), 1)), "nested like a format": ("sub/x.castep", files_of("sub/x.castep", ("md",))),
                 "err-like": ("Ni.0001.err", files_of("Ni.0001.err", ("param",)))}
        put(Path("run.castep"), "castep", 2)
        put(Path("run.md"), "md", 2)
        put(Path("sub/run.md"), "md")
        put(Path("two.cell"), "cell")
        put(Path("two.cell.castep"), "castep")
        put(Path("f.cst_esp"), "cst_esp")
        Path("notes.txt").write_text("x")
        put(Path("seed4.0001.err"), "err")
        seq = []
        for i in range(3 if c.deep else 2):
            k = c.pick(f"seed{i}", [None, *kinds])
            if k is None:
                break
            seq.append(k)
        inc = c.pick("inc", ((), ("castep",), ("err", "md"), ("cell",)))
        want = {}
        for k in seq:
            found = kinds[k][1]
            isfile = k in ("file", "nested file", "err file", "both", "bin")
            want |= found if isfile else selected(found, inc, not inc)
        return judge([*(f"--inc-{i}" for i in inc), *(kinds[k][0] for k in seq)], want)


def api(c):
    """parse_all called from Python: names or path objects, one or several files, to a stream or file."""
    from castep_outputs.cli.castep_outputs_main import parse_all
    with scratch():
        exts = [e for e in ("castep", "md", "cst_esp", "err") if c.flag(e)]
        found = files_of("seed", exts)
        if c.flag("another folder"):
            found |= files_of("sub/seed", exts)
        as_path = c.flag("path objects")
        fmt = c.pick("format", C03.FORMATS)
        to = c.pick("to", ("stream", "name", "path"))
        given = {}
        for k, ext in found.items():
            given.setdefault(ext, []).append(Path(k) if as_path else k)
        out = {"stream": io.StringIO(), "name": "out", "path": Path("out")}[to]
        parse_all(out, fmt, **given)
        text = out.getvalue() if to == "stream" else Path("out").read_text(encoding="utf-8")
        if fmt in ("print", "pprint"):
            return fmt
        got = C03.load(fmt, text)
        conv = C03.want_json if fmt == "json" else (lambda x: x)
        ref = {k: conv(reference(k, ext)) for k, ext in found.items()}
        if not C03.same(got, next(iter(ref.values())) if len(ref) == 1 else ref):
            raise Violation(f"parse_all of {sorted(found)} as {fmt} gives {got!r}"[:900])
        return f"{len(found)}"


MODELS = [(f.__name__, f, 0, 0) for f in (seeds, formats, everything, explicit, several, api)]
