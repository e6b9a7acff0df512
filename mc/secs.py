"""Models of one property group: every section of the group on its own, in long forms, and printed again unchanged."""
from mc import castep
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed, build

SIZES = (11, 26, 102)
LIMITS = {"nop": 12}  # no point group has more classes


class Stretch(Fixed):
    """Takes the `i`-th option everywhere, but makes the dimension `dim` of a section `n` long."""

    def __init__(self, i=0, dim=None, n=0, deep=False, mixed=False):
        super().__init__(i)
        self.mixed, self.count = mixed, 0
        self.dim, self.n, self.dims, self.deep = dim, n, [], deep

    def dev(self, name, options):
        if name == self.dim:
            return self.pick(name, options)
        options = self.note(name, list(options))
        self.count += 1
        return options[self.count % len(options) if self.mixed else 0]

    def note(self, name, opts):
        if name.startswith("n") and all(type(o) is int for o in opts) and len(opts) > 1 and name not in self.dims and name != "nsp":
            self.dims.append(name)
        return opts

    def pick(self, name, options):
        opts = list(range(options) if isinstance(options, int) else options)
        self.note(name, opts)
        if name == self.dim:
            return min(self.n, LIMITS.get(name, self.n))
        return super().pick(name, options)


def dims(name):
    s = Stretch()
    SECTIONS[name](s, Writer(s))
    return s.dims


def group_names(group):
    return [name for name, sec in SECTIONS.items() if sec.group == group]


def stretched(group, known=None):
    """Every countable part of every section, many items long."""
    table = [(name, dim) for name in group_names(group) for dim in dims(name)]

    def model(c):
        name, dim = c.pick("part", table)
        s = Stretch(c.pick("variant", (0, 1)), dim, c.pick("size", SIZES), mixed=c.pick("mixed", (False, True)))
        lines, ops = SECTIONS[name](s, Writer(s))
        castep.check(lines, ops, {known[name]: build(ops, quirk=True)} if known and name in known else None, f"{name}, {dim} = {s.n}: ")
    return model if table else None


def again(name):
    """Whether a section only adds to lists, so that it may be printed any number of times."""
    return all(op[0] in ("append", "lift") for op in castep.fixed(name)[1])


def repeated(group):
    """A section printed again without any change adds the same data again."""
    names = [n for n in group_names(group) if again(n)]

    def model(c):
        name = c.pick("section", names)
        lines, ops = castep.fixed(name, Writer(Fixed(0)), c.pick("variant", (0, -1)))
        k = c.pick("times", (2, 3))
        sep = c.pick("between", ([""], []))
        if name.startswith("warning"):
            sep = [""]
        castep.check([x for _ in range(k) for x in (*lines, *sep)], ops * k, None, f"{name} {k} times: ")
    return model if names else None


def models(group, known=None, bounds=None, loose=(), extra=(), big=(), bound=2):
    out = []
    for name, sec in SECTIONS.items():
        if sec.group == group:
            bq, bt = (bounds or {}).get(name, (bound, 2))
            if name in big:
                # number and structure deviations combined freely, while the full structure is
                # explored with one deviating number
                bt = 1
                out.append((name + "_loose", castep.section_model(name, (known or {}).get(name), True), 1, 2))
            out.append((name, castep.section_model(name, (known or {}).get(name), name in loose), bq, bt))
    for kind, m in (("stretched", stretched(group, known)), ("repeated", repeated(group))):
        if m:
            out.append((kind, m, 0, 0))
    return out + list(extra)


ASSUME = ["section texts follow the layout of the CASTEP outputs shipped with the repository (documentation examples, test data)"]
