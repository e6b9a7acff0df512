"""Filters only select: filtered data equals the matching part of the full data."""
from mc import castep
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed, build
from mc.sections.steps import ALL_KINDS, IN_STEPS, contents, final_config, geom_run, in_step_sections, md_run
from mc.secs import ASSUME
from checks import C22

ASSUMPTIONS = [*ASSUME, "the steps of a run, once selected, are given with every kind of data except SCF tables (which need selecting)"]

KINDS = sorted(ALL_KINDS)
NAMES = list(SECTIONS)
EVERYTHING = frozenset(KINDS)

LOW = frozenset("BS CELL CHEM_SHIELDING DIPOLE ELASTIC ELF FINAL_CONFIG FORCE MD_SUMMARY OPTICS POPN_ANALYSIS POSITION "
                "POLARISATION SOLVATION SPECIES_PROPS SPIN STRESS TDDFT THERMODYNAMICS TSS DELTA_SCF".split())
MEDIUM = LOW | {"PARAMETERS", "GEOM_OPT", "MD", "PHONON"}
PRESETS = {"NONE": frozenset(), "LOW": LOW, "MEDIUM": MEDIUM, "HIGH": IN_STEPS, "FULL": EVERYTHING - {"TEST_EXTRA_DATA"}}
SINGLES = [frozenset({k}) for k in KINDS]
WITHOUT = [EVERYTHING - {k} for k in KINDS]


def flags(kinds):
    return castep.flags(sorted(kinds))


def verdict(lines, oplists, kinds, known=None, filters=None):
    ops = [o for ol in oplists for o in ol]
    castep.expect(castep.text_of(lines), [castep.prune(castep.canon(build(ops, quirk=True)))], known,
                  f"[{'+'.join(sorted(kinds)) or 'NONE'}] ", filters if filters is not None else flags(kinds))


def one(lines_ops, names, kinds, filters=None):
    known = None
    if "bsc" in names and "SCF" not in kinds:
        known = {"C21-bsc-energies": build(*[moved(o) for _, o in lines_ops], quirk=True)}
    verdict([x for ls, _ in lines_ops for x in ls], [o for _, o in lines_ops], kinds, known, filters)


def moved(ops):
    """Recorded defect: without SCF the energies of every cut-off count as energies of the run."""
    out = []
    for op in ops:
        if op[1] == ("bsc_energies",):
            out += [("append", ("energies", k), x) for k, xs in op[2].items() for x in xs]
        else:
            out.append(op)
    return out


def presets(c):
    """Each preset selects its documented kinds."""
    _, Filters = castep.api()
    name = c.pick("preset", sorted(PRESETS))
    sec = c.pick("section", NAMES)
    w = Writer(Fixed(0))
    one([castep.fixed(sec, w, 0, PRESETS[name])], (sec,), PRESETS[name], Filters[name] if name != "NONE" else Filters.NONE)


def single(c):
    """Every section under every single kind and under everything but one kind."""
    sec = c.pick("section", NAMES)
    kinds = c.pick("kinds", [*SINGLES, *WITHOUT, EVERYTHING])
    one([castep.fixed(sec, Writer(Fixed(0)), c.pick("variant", (0, -1)), kinds)], (sec,), kinds)


def kind_pairs(c):
    """Every section under every pair of kinds."""
    sec = c.pick("section", NAMES)
    a = c.pick("kind1", range(len(KINDS) - 1))
    b = c.pick("kind2", range(a + 1, len(KINDS)))
    kinds = frozenset({KINDS[a], KINDS[b]})
    if not c.deep and not any(alt & kinds for alt in SECTIONS[sec].need):
        return "unrelated"
    one([castep.fixed(sec, Writer(Fixed(0)), 0, kinds)], (sec,), kinds)


def need(name):
    return SECTIONS[name].need[0]


def neighbours(c):
    """Two adjacent sections, only one of them (or both, or neither) selected."""
    a = c.pick("first", NAMES)
    b = c.pick("second", C22.partners(a))
    how = c.pick("select", ("first", "second", "not first", "not second"))
    kinds = {"first": need(a), "second": need(b), "not first": EVERYTHING - need(a), "not second": EVERYTHING - need(b)}[how]
    kinds = frozenset(kinds)
    w = Writer(Fixed(0))
    parts = []
    for n in (a, b):
        lines, ops = castep.fixed(n, w, c.dev("variant", (0, -1)), kinds)
        if n == "warning_dash":
            lines = [*lines, ""]
        parts.append((lines, ops))
    one(parts, (a, b), kinds)


def species_strings(c):
    """Pseudopotential strings stay text unless pseudopotentials are selected as well."""
    from checks.C19 import STRINGS
    text, val = c.pick("string", STRINGS)
    kinds = c.pick("kinds", [*SINGLES, frozenset({"SPECIES_PROPS", "PSPOT"}), EVERYTHING, EVERYTHING - {"PSPOT"}, EVERYTHING - {"SPECIES_PROPS"}])
    lines = ["                          Files used for pseudopotentials:", f"                                    Fe    {text}", " "]
    ops = []
    if "SPECIES_PROPS" in kinds:
        ops = [("set", ("species_properties", "Fe", "pseudopot"), val if "PSPOT" in kinds else text)]
    verdict(lines, [ops], kinds)


MD_PARTS = ("cell", "positions", "scf", "energies", "forces", "stress", "md", "spin")
GEOM_PARTS = ("min", "trial", "cell", "positions", "scf", "energies", "forces", "stress", "spin", "enthalpy", "conv")


def step_kinds(c):
    ks = [*SINGLES, *WITHOUT, EVERYTHING, frozenset()]
    ks += [frozenset({m, k}) for m in ("MD", "GEOM_OPT") for k in KINDS if k != m]
    return c.pick("kinds", ks)


def md_filters(c):
    """Molecular dynamics with data outside the steps, under every kind, all but one and pairs with MD."""
    kinds = step_kinds(c)
    w = Writer(Fixed(0))
    before, b = contents(w, ("cell", "positions", "scf", "energies", "forces"), 0, kinds)
    parts = [p for p in MD_PARTS if not c.devflag(f"drop:{p}")]
    lines, ops = md_run(w, [parts, parts], c.dev("step0", ((), None, ("md", "forces"))), 0, kinds=kinds)
    after, a = contents(w, ("energies", "spin"), 0, kinds)
    verdict([*before, *lines, "", *after], [b, ops, a], kinds)


def geom_filters(c):
    kinds = step_kinds(c)
    w = Writer(Fixed(0))
    before, b = contents(w, ("cell", "positions", "scf", "energies", "forces"), 0, kinds)
    parts = [p for p in GEOM_PARTS if not c.devflag(f"drop:{p}")]
    lines, ops = geom_run(w, [parts, parts], "LBFGS", 0, kinds=kinds)
    final, f = final_config(w, "LBFGS")
    if not kinds & {"GEOM_OPT", "FINAL_CONFIG"}:
        f = []
    after, a = contents(w, ("stress", "spin"), 0, kinds)
    verdict([*before, *lines, *final, "", *after], [b, ops, f, a], kinds)


def step_sections(c):
    """Any section within a step is given with the step, whichever other kinds are selected (save SCF tables)."""
    run = c.pick("run", ("md", "geom"))
    sec = c.pick("section", [n for n in in_step_sections(run) if n != "bsc"])  # see C21-bsc-energies
    me = "MD" if run == "md" else "GEOM_OPT"
    kinds = frozenset(c.pick("kinds", ({me}, EVERYTHING, EVERYTHING - {me}, {me} | need(sec), (EVERYTHING - need(sec)) | {me}, need(sec), MEDIUM, LOW, LOW | {me})))
    w = Writer(Fixed(0))
    i = c.pick("variant", (0, -1))
    if run == "md":
        lines, ops = md_run(w, [("positions", "md"), ("positions", "@" + sec, "md")], (), i, kinds=kinds)
    else:
        lines, ops = geom_run(w, [("min", "enthalpy"), ("min", "@" + sec, "forces", "enthalpy")], "BFGS", i % 2, kinds=kinds)
    verdict([*lines, ""], [ops], kinds)


MODELS = [("step_sections", step_sections, 0, 0),
          ("presets", presets, 0, 0), ("single", single, 0, 0), ("kind_pairs", kind_pairs, 0, 0),
          ("neighbours", neighbours, 0, 1), ("species_strings", species_strings, 0, 0),
          ("md_filters", md_filters, 0, 1), ("geom_filters", geom_filters, 0, 1)]
