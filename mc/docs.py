"""Documents of every other format, taken from the writer models of their own checks."""
from __future__ import annotations

import importlib

from mc.sections import Fixed

TEXT = ("C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18")
BINARY = ("C16",)


class Captured(Exception):
    def __init__(self, fn, content):
        super().__init__(fn.__name__)
        self.fn, self.content = fn, content


class Pick(Fixed):
    """The `i`-th option of every decision, deviations included when `devs`."""

    def __init__(self, i, devs=False):
        super().__init__(i)
        self.devs = devs

    def dev(self, name, options):
        options = list(options)
        return options[min(self.i, len(options) - 1)] if self.devs else options[0]

    def devflag(self, name):
        return self.dev(name, (False, True))

    def flag(self, name):
        return self.pick(name, (False, True))


def _capture(mod, model, chooser):
    names = [n for n in ("check", "run") if hasattr(mod, n)]
    old = {n: getattr(mod, n) for n in names}

    def stub(*args, **kw):
        if callable(args[0]):  # check(fn, text, ...)
            raise Captured(args[0], args[1])
        fn = args[3] if len(args) > 3 and args[3] else kw.get("fn") or mod.parse_cell_file  # run(c, text, exp, fn)
        raise Captured(fn, args[1])
    for n in names:
        setattr(mod, n, stub)
    try:
        model(chooser)
    except Captured as doc:
        return doc.fn, doc.content
    except Exception:
        return None
    finally:
        for n in names:
            setattr(mod, n, old[n])
    return None


def corpus(props=TEXT, variants=((0, False), (1, False), (2, False), (-1, False), (1, True))):
    """[(label, parser, content)], without duplicates."""
    out, seen = [], set()
    for prop in props:
        mod = importlib.import_module(f"checks.{prop}")
        for name, model, *_ in mod.MODELS:
            if name.startswith("large"):  # they would make every check of histories slow; their own checks cover them
                continue
            for i, devs in variants:
                got = _capture(mod, model, Pick(i, devs))
                if got and (got[0].__name__, got[1]) not in seen:
                    seen.add((got[0].__name__, got[1]))
                    out.append((f"{prop}/{name}/{i}{'d' if devs else ''}", *got))
    return out
