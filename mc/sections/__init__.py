"""
Sections of a main output (.castep) file: what CASTEP writes and what must be parsed from it.

A section is a function ``fn(c, w) -> (lines, ops)`` registered with the filter kinds that select it.
``ops`` are the data the section contributes to its run:
``("set", path, value)``, ``("append", path, value)``, ``("update", path, mapping)``; a fourth element is
the value a recorded defect is known to give instead (DROP: nothing).
"""
from __future__ import annotations

SECTIONS = {}
DROP = object()


class Sec:
    def __init__(self, name, fn, need, group, closed=True):
        self.name, self.fn, self.need, self.group, self.closed = name, fn, need, group, closed

    def __call__(self, c, w):
        lines, ops = self.fn(c, w)
        if isinstance(lines, str):
            lines = lines.strip("\n").split("\n")
        return lines, ops


def section(need, group):
    """
    Register a section.

    `need` is a string: alternatives separated by "|", each a "&"-joined set of filter kinds ("" = always).
    """
    def deco(fn):
        SECTIONS[fn.__name__] = Sec(fn.__name__, fn,
                                    [frozenset(x for x in alt.split("&") if x) for alt in need.split("|")], group)
        return fn
    return deco


def selected(sec, kinds):
    return any(alt <= set(kinds) for alt in sec.need)


def build(*oplists, quirk=False):
    """Apply operations in order to an empty run (`quirk`: with the recorded defect of lifted estimates)."""
    run = {}
    for ops in oplists:
        for op, path, val, *alt in ops:
            if quirk and alt:
                val = alt[0]
                if val is DROP:
                    continue
            cur = run
            for p in path[:-1]:
                cur = cur.setdefault(p, {})
            last = path[-1]
            if op == "set":
                cur[last] = val
            elif op == "append":
                cur.setdefault(last, []).append(val)
            elif op == "update":
                cur.setdefault(last, {}).update(val)
            elif op == "lift":  # estimates printed within molecular-dynamics steps belong to the run
                if quirk:
                    cur[last] = list(val)
                else:
                    cur.setdefault(last, []).extend(val)
            elif op == "geom_start":  # what precedes the first iteration is the entry of the starting configuration
                g = cur.setdefault(last, {})
                if not g.get("iterations"):
                    first = {}
                    for k in ("enthalpy", "scf", "forces", "stresses", "minimisation"):
                        if k in run:
                            first[k] = run.pop(k)
                    for k, new in (("initial_cell", "cell"), ("initial_positions", "positions")):
                        if k in run:
                            first[new] = run[k]
                    g["iterations"] = [first]
            else:
                raise ValueError(op)
    return run


ELEMENTS = ("He Li Be B C N F Ne Na Mg Al P S Cl Ar K Ca Sc Ti V Cr Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe"
            " Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es"
            " Fm Md No Lr").split()


def nth(items, i, make=None):
    """Item `i` of a list of labels that goes on for ever."""
    if i < len(items):
        return items[i]
    j = i - len(items)
    if make:
        return make(j)
    return ELEMENTS[j] if j < len(ELEMENTS) else f"{ELEMENTS[j % len(ELEMENTS)]}:t{j // len(ELEMENTS)}"


class Fixed:
    """Chooser taking the `i`-th option everywhere (no branching)."""

    deep = False

    def __init__(self, i=0):
        self.i = i

    def pick(self, _name, options):
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        return options[min(self.i, len(options) - 1)]

    def dev(self, _name, options):
        return list(options)[0]

    def flag(self, name):
        return self.pick(name, (True, False))

    def devflag(self, _name):
        return False

    def subset(self, _name, options):
        return list(options)

    def perm(self, _name, items):
        return list(items)


from mc.sections import setup, scf, forces, popn, lattice, spectra, steps, pairs  # noqa: E402,F401
