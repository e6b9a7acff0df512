"""Running the main-output parser on section models."""
from __future__ import annotations

import io

from mc.compare import canon, diff, show
from mc.core import Hang, Violation, fmt_exc
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed, build, selected


def api():
    from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
    return parse_castep_file, Filters


def everything():
    _, Filters = api()
    return Filters.FULL | Filters.TEST_EXTRA_DATA


def flags(kinds):
    _, Filters = api()
    out = Filters.NONE
    for k in kinds:
        out |= Filters[k]
    return out


def prune(run):
    """Empty containers made in passing carry no data."""
    if isinstance(run, dict):
        return {k: prune(v) for k, v in run.items() if not (k == "geom_opt" and v == {})}
    if isinstance(run, list):
        return [prune(x) for x in run]
    return run


def parse(text, filters=None):
    fn, _ = api()
    try:
        runs = fn(io.StringIO(text), filters=everything() if filters is None else filters)
    except (Violation, Hang):
        raise
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": text}) from None
    return prune(canon(runs))


def text_of(lines):
    return "\n".join(lines) + "\n"


def check(lines, ops, known=None, what="", filters=None):
    """The single run printed as `lines` must be what `ops` say."""
    expect(text_of(lines), [prune(canon(build(ops)))] if ops else [], known, what, filters)


def expect(text, runs, known=None, what="", filters=None):
    try:
        got = parse(text, filters)
    except Violation as v:
        for fid, alt in (known or {}).items():
            if isinstance(alt, str) and alt in v.message:
                raise Violation(f"{what}{v.message}", v.detail, finding=fid) from None
        raise Violation(what + v.message, v.detail) from None
    runs = [r for r in runs if r]
    got = [r for r in got if r]
    d = diff(runs, got)
    if not d:
        return
    for fid, alt in (known or {}).items():
        if not isinstance(alt, str) and not diff([prune(canon(alt))] if isinstance(alt, dict) else canon(alt), got, limit=1):
            raise Violation(f"{what}{show(d)}", {"text": text}, finding=fid)
    raise Violation(f"{what}{show(d)}", {"text": text, "got": repr(got)[:4000]})


def fixed(name, w=None, i=0, kinds=None):
    """Lines and operations of section `name` in variant `i` without branching (for the selected kinds)."""
    w = w or Writer(Fixed(0))
    if kinds is None:
        return SECTIONS[name](Fixed(i), w)
    if name in ("md", "geom"):
        return SECTIONS[name].fn(Fixed(i), w, kinds=frozenset(kinds))
    lines, ops = SECTIONS[name](Fixed(i), w)
    if name == "bsc" and not selected(SECTIONS[name], kinds):  # energies are returned whatever is selected
        return lines, [op for op in ops if op[1][0] not in ("scf", "bsc_scf")]
    return lines, ops if selected(SECTIONS[name], kinds) else []


class Loose:
    """Chooser whose structural decisions count as deviations as well (first option: free)."""

    def __init__(self, c):
        self.c, self.deep = c, c.deep

    def pick(self, name, options):
        return self.c.dev(name, range(options) if isinstance(options, int) else options)

    def flag(self, name):
        return self.c.devflag(name)

    def subset(self, name, options):
        return [o for o in options if self.c.dev(f"{name}:{o}", (True, False))]

    def __getattr__(self, name):
        return getattr(self.c, name)


def section_model(name, known=None, loose=False):
    def model(c):
        if loose:
            c = Loose(c)
        w = Writer(c)
        lines, ops = SECTIONS[name](c, w)
        check(lines, ops, {known: build(ops, quirk=True)} if known else None)
    model.__name__ = "section_" + name
    return model
