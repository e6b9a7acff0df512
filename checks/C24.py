"""Iterated calculations: each step's data lands in that step, in order."""
from mc import castep
from mc.core import Violation
from mc.gen import Writer
from mc.sections import Fixed, build
from mc.sections import steps as S
from mc.sections.steps import contents, final_config, geom_run, md_run
from mc.secs import ASSUME, models

ASSUMPTIONS = [*ASSUME, "transition-state progress tables and path-integral molecular dynamics are not covered"]

MD_PARTS = ("cell", "positions", "scf", "energies", "forces", "stress", "md", "spin")
GEOM_PARTS = ("min", "trial", "cell", "positions", "scf", "energies", "forces", "stress", "enthalpy", "conv")
OUTER = ("cell", "positions", "energies", "forces", "stress", "spin")
def verdict(lines, *oplists):
    """The run must be what the operations say."""
    ops = [o for ol in oplists for o in ol]
    castep.check(lines, ops, {"C24-memory-estimate": build(ops, quirk=True)})


def head(w):
    return castep.fixed("build_info", w)


def md_subsets(c):
    """One or two steps, every pair of subsets of what a step prints."""
    w = Writer(Fixed(0))
    n = c.pick("steps", (1, 2))
    parts = MD_PARTS
    if n == 2:
        parts = ("positions", "energies", "forces", "md") + (("stress", "cell") if c.deep else ())
    verdict(*md_run(w, [c.subset(f"s{i}", parts) for i in range(n)], c.pick("step0", ((), None, ("forces", "md")))))


def md_order(c):
    """What a step prints may come in any order."""
    w = Writer(Fixed(0))
    parts = c.perm("order", ("energies", "forces", "stress", "md") + (("positions",) if c.deep else ()))
    verdict(*md_run(w, [parts, parts[::-1]], ()))


def md_history(c):
    """Steps and data before, between and after them: every part dropped, added or repeated within the bound."""
    w = Writer(Fixed(0))
    nsteps = c.pick("steps", (2, 1, 3, 0) + ((5,) if c.deep else ()))
    default = ("positions", "energies", "forces", "stress", "md")
    steps = []
    for i in range(nsteps):
        st = [p for p in default if not c.devflag(f"drop{i}:{p}")]
        st += [p for p in ("cell", "scf", "spin", "memory") if c.devflag(f"add{i}:{p}")]
        rep = c.dev(f"repeat{i}", (None, "energies", "forces", "scf", "stress"))
        steps.append(st + ([rep] if rep else []))
    step0 = c.dev("step0", ((), None, ("md",), ("energies", "forces", "stress", "md")))
    hl, ho = head(w)
    before, b = contents(w, [p for p in OUTER if c.devflag(f"before:{p}")] + (["memory"] if c.devflag("runmem") else []))
    between = c.dev("between", ((), ("spin",), ("memory",)))
    lines, ops = md_run(w, steps, step0, c.dev("variant", (0, 1)), between, c.dev("first", (1, 0, 99999)))
    after, a = contents(w, [p for p in OUTER if c.devflag(f"after:{p}")])
    verdict([*hl, *before, *lines, "", *after], ho, b, ops, a)


def md_numbers(c):
    """Every number of a two-step run in every spelling."""
    verdict(*md_run(Writer(c), [("positions", "energies", "forces", "md"),
                                ("cell", "positions", "energies", "stress", "md")], ()))


# ---------------------------------------------------------------- geometry optimisation

def geom_subsets(c):
    w = Writer(Fixed(0))
    n = c.pick("steps", (1, 2))
    parts = GEOM_PARTS if n == 1 else ("min", "energies", "forces", "enthalpy") + (("conv", "trial") if c.deep else ())
    m = c.pick("minim", S.MINIMISERS) if n == 1 and c.deep else "LBFGS"
    verdict(*geom_run(w, [c.subset(f"s{i}", parts) for i in range(n)], m, zeroth=c.flag("zeroth")))


def geom_order(c):
    w = Writer(Fixed(0))
    parts = c.perm("order", ("min", "energies", "forces", "enthalpy") + (("conv",) if c.deep else ()))
    verdict(*geom_run(w, [parts, parts[::-1]], "BFGS"))


def geom_history(c):
    """Minimisers, iterations, what each prints and what surrounds them."""
    w = Writer(Fixed(0))
    m = c.dev("minim", S.MINIMISERS)
    nsteps = c.pick("steps", (2, 1, 3, 0) + ((5,) if c.deep else ()))
    default = ("min", "trial", "positions", "energies", "forces", "stress", "enthalpy", "conv")
    steps = []
    for i in range(nsteps):
        st = [p for p in default if not c.devflag(f"drop{i}:{p}")]
        st += [p for p in ("cell", "scf", "spin") if c.devflag(f"add{i}:{p}")]
        rep = c.dev(f"repeat{i}", (None, "energies", "forces", "min", "scf"))
        steps.append(st + ([rep] if rep else []))
    hl, ho = head(w)
    names = [p for p in OUTER if p in ("energies", "forces", "stress") and c.devflag(f"before:{p}")]
    names = [p for p in ("cell", "positions") if c.devflag(f"before:{p}")] + names
    before, b = contents(w, names)
    zeroth = not c.devflag("nozeroth")
    lines, ops = geom_run(w, steps, m, c.dev("variant", (0, 1)), c.dev("pre", (("conv",), (), ("min",), ("scf",))), zeroth)
    final, f = final_config(w, m, 0, c.dev("final", (("cell", "atoms"), ("atoms",), ()))) if not c.devflag("nofinal") else ([], [])
    after, a = contents(w, [p for p in ("energies", "forces", "stress") if c.devflag(f"after:{p}")])
    verdict([*hl, *before, *lines, *final, "", *after], ho, b, ops, f, a)


def geom_numbers(c):
    w = Writer(c)
    lines, ops = geom_run(w, [("min", "trial", "energies", "forces", "min", "enthalpy", "conv"),
                              ("min", "cell", "positions", "stress", "enthalpy", "conv")], "LBFGS")
    final, f = final_config(w, "LBFGS")
    verdict([*lines, *final], ops, f)


def step_sections(c):
    """Any other section of the output within a step belongs to that step."""
    run = c.pick("run", ("md", "geom"))
    name = c.pick("section", S.in_step_sections(run))
    w = Writer(Fixed(0))
    i = c.pick("variant", (0, -1))
    if run == "md":
        steps = [("positions", "@" + name, "forces", "md"), ("energies", "md")]
        lines, ops = md_run(w, steps if c.pick("where", ("first", "second")) == "first" else steps[::-1], (), i)
    else:
        steps = [("min", "@" + name, "forces", "enthalpy"), ("energies", "enthalpy")]
        lines, ops = geom_run(w, steps if c.pick("where", ("first", "second")) == "first" else steps[::-1], "LBFGS", i % 2)
    verdict([*lines, ""], ops)


def constraint_images(c):
    """An angle or torsion between an atom and its own image names that atom twice; both cells belong to the data."""
    typ, n = c.pick("type", (("Bond", 2), ("Angle", 3), ("Torsion", 4)))
    pair = c.pick("pair", [(i, j) for j in range(n) for i in range(j)])
    atoms = [2 + i for i in range(n)]
    atoms[pair[1]] = atoms[pair[0]]
    cells = [tuple((i + k) % 2 for k in range(3)) for i in range(n)]
    cells[pair[1]] = c.pick("cell", ((0, 0, -1), (1, -1, 0)))
    lines = ["  INTERNAL CONSTRAINTS", " #  Type     Target    Actual           Definition", "",
             f"  1 {typ:<7}    2.360 Satisfied  " + "  ".join(f"{a:2d} (" + "".join(f"{q:2d}" for q in x) + ")" for a, x in zip(atoms, cells)), ""]
    got = castep.parse(castep.text_of(lines))[0]["internal_constraints"]
    flat = repr(got)
    if all(repr(list(x)) in flat for x in cells):
        return "ok"
    kept = dict(zip(atoms, map(list, cells)))
    known = got == [{"type": typ, "target": None, "current": 2.36, "satisfied": True, "constraints": kept}]
    raise Violation(f"cells {cells} of atoms {atoms} became {flat}", {"text": castep.text_of(lines)}, finding="C24-constraint-image" if known else None)


MODELS = models("C24", bound=1, loose={"geom", "final_configuration"}, extra=[
    ("md_subsets", md_subsets, 0, 0), ("md_order", md_order, 0, 0), ("md_history", md_history, 1, 2),
    ("constraint_images", constraint_images, 0, 0), ("step_sections", step_sections, 0, 0), ("md_numbers", md_numbers, 1, 1),
    ("geom_subsets", geom_subsets, 0, 0), ("geom_order", geom_order, 0, 0), ("geom_history", geom_history, 1, 2),
    ("geom_numbers", geom_numbers, 1, 1)])
