"""Pseudopotential strings."""
import io

from castep_outputs import parse_castep_file, parse_cell_file

from mc.compare import canon, diff, show
from mc.core import Hang, Violation, fmt_exc
from mc.gen import Writer

SHELLS = "spdf"
SPECS = ["Fe", "H", "Si:tag", "O", "Ti:a1"]


def via_cell(strings):
    txt = "%BLOCK SPECIES_POT\n" + "".join(f"  {sp}   {s}\n" for sp, s in strings) + "%ENDBLOCK SPECIES_POT\n"
    return txt, lambda: canon(parse_cell_file(io.StringIO(txt)))[0]["species_pot"]


def via_castep(strings):
    txt = ("\n" + " " * 34 + "Files used for pseudopotentials:\n" + "".join(f"{sp:>38}  {s}\n" for sp, s in strings) + "\n")
    return txt, lambda: {k: v["pseudopot"] for k, v in canon(parse_castep_file(io.StringIO(txt)))[0]["species_properties"].items()}


def run(c, strings, exp, choose=None):
    txt, fn = (choose or c.pick)("entry", [via_cell, via_castep])(strings)
    try:
        got = fn()
    except Hang:
        raise
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": txt}) from None
    d = diff(exp, got)
    if d:
        raise Violation(show(d), {"text": txt, "got": repr(got)})


RC = ["", "1.9", "2", "0.75"]
EN = ["", "+0", "+0.1", "-0.5", "=0.25", "=-1.5", "=+2", "-12.125"]
DE = ["", "@0.2", "@1"]


def projector(c, n, dec):
    t = c.dev(f"type{n}", "UNGHLP") if dec else c.pick(f"type{n}", "UNGHLP")
    rc = c.dev(f"rc{n}", RC) if dec else c.pick(f"rc{n}", RC)
    en = c.dev(f"e{n}", EN) if dec else c.pick(f"e{n}", EN)
    de = c.dev(f"d{n}", DE) if dec else c.pick(f"d{n}", DE)
    p = {"type": t}
    if rc:
        p["beta_rc"] = float(rc)
    if en:
        p["beta_e"] = float(en.lstrip("="))
    if de:
        p["beta_delta"] = float(de[1:])
    return t + rc + en + de, p


def group(c, n, maxproj, dec=True, orb=None):
    o, s = orb or c.dev(f"orb{n}", [(3, 0), *[(n, s) for n in range(1, 8) for s in range(4) if (n, s) != (3, 0)]])
    k = c.pick(f"nproj{n}", range(maxproj + 1)) if maxproj > 1 else c.dev(f"nproj{n}", [1, 0])
    ps = [projector(c, f"{n}.{i}", dec) for i in range(k)]
    return f"{o}{s}" + "".join(p[0] for p in ps), {"orbital": o, "shell": SHELLS[s], "shell_ind": s, "projectors": [p[1] for p in ps]}


FLAGS = [None, "qc=8", "tm,nonlcc", "qc=6.5,up=0,down=1", "schro"]
TESTS = [None, "", "3s2", "3s2,3p1.5,3d0.25", "3d10,4f0.1"]
ADJS = [None, "1s1", "5s0.5,5p0.5", "5d0.9,4f0.1"]


def string(c, dec=True, maxgroups=3, maxproj=2, tag=""):
    ch = c.pick if not dec and c.deep else c.dev
    pk = c.dev if dec else c.pick
    nums = ["core_radius"] + (["beta_radius", "r_inner"] if ch("inner" + tag, [1, 0]) else []) + ["coarse", "medium", "fine"]
    loc = ch("local" + tag, [2, 0, 3])
    e = {"local_channel": float(loc), "poly_fit": False, "print": False}
    s = str(loc)
    le = c.dev("local_e" + tag, ["", "0.5", "2", "1.25"])
    if le:
        e["local_energy"] = float(le)
        s = f"{le}={s}"
    poly = ch("poly" + tag, ["", "pre", "post"])
    if poly:
        e["poly_fit"] = True
        s = "-" + s if poly == "pre" else s + "-"
    s += "|"
    for i, n in enumerate(nums):
        t = c.dev(n + tag, [["1.8", "2.1", "1.3", "3.675", "5.512", "7.35"][i], str(i + 11), f"{i}.0", f"0.{i + 1}"])
        e[n] = float(t)
        s += t + "|"
    ng = c.pick("groups" + tag, range(1, maxgroups + 1)) if dec else ch("groups" + tag, [2, 1])
    orbs = [(3, 0), (3, 1), (3, 2), (4, 3)]
    gs = [group(c, f"{tag}{i}", maxproj, True, None if i == 0 else orbs[i]) for i in range(ng)]
    e["beta_function_string"] = ":".join(g[0] for g in gs)
    e["beta_functions"] = [g[1] for g in gs]
    s += e["beta_function_string"]
    opts = {}
    for key, br, alph in (("flags", "()", FLAGS), ("adjustment", "{}", ADJS), ("testing", "[]", TESTS)):
        v = pk(key + tag, alph)
        if v is not None:
            opts[key] = br[0] + v + br[1]
            e[key] = v.split(",")
            if key == "testing":
                e["print"] = True
    for key in c.perm("optorder" + tag, opts):
        s += opts[key]
    e["string"] = s
    return s, e


def strings(c):
    """One string: head, groups and all options in all orders; spellings as deviations."""
    s, e = string(c, False, 2, 1)
    sp = c.dev("spec", SPECS)
    run(c, [(sp, s)], {sp: e})


def groups(c):
    """Several beta-function groups with several projectors."""
    s, e = string(c, True, 3, 3 if c.deep else 2)
    run(c, [("Fe", s)], {"Fe": e}, c.dev)


def projectors(c):
    """Every projector, fully enumerated; then every pair of types with deviating parts."""
    g = [group(c, "a", 1, False, (3, 1))] + ([group(c, "b", 2, True, (3, 2))] if c.pick("second", [0, 1]) else [])
    b = ":".join(x[0] for x in g)
    s = "2|1.8|3.675|5.512|7.35|" + b
    e = {"local_channel": 2.0, "poly_fit": False, "print": False, "core_radius": 1.8, "coarse": 3.675, "medium": 5.512, "fine": 7.35,
         "beta_function_string": b, "beta_functions": [x[1] for x in g], "string": s}
    run(c, [("Fe", s)], {"Fe": e})


NAMES = ["C19", "NCP19", "Fe_00.usp", "O_C19MK2_PBE_OTF.usp", "H.recpot", "Mn_OTF-saved.usp", "00PBE.usp", "QC5", "../pots/a-b_1.0.uspp", "3_opium.usp"]


def several(c):
    """Several species, each with its own string or name."""
    n = 3
    out, exp = [], {}
    specs = c.pick("specs", [SPECS[:3], SPECS[2:], ["C", "Cl", "Ca"], ["Si", "Si:a", "Si:b"]])
    for i in range(n):
        kind = c.pick(f"kind{i}", ["string", "name"])
        if kind == "name":
            s = e = c.pick(f"name{i}", NAMES) if i == 0 else NAMES[i]
        else:
            s, e = string(c, True, 2, 1, f"s{i}")
        out.append((specs[i], s))
        exp[specs[i]] = e
    run(c, out, exp)


def library(c):
    name = c.pick("name", NAMES)
    txt = f"%BLOCK SPECIES_POT\n{c.pick('ind', ['', '  '])}{name}{c.pick('tail', ['', '  ', ' # lib'])}\n%ENDBLOCK SPECIES_POT\n"
    got = canon(parse_cell_file(io.StringIO(txt)))
    d = diff([{"species_pot": {None: name}}], got)
    if d:
        raise Violation(show(d), {"text": txt})


class Fixed:
    def __init__(self, k):
        self.k = k

    def pick(self, _n, o):
        o = list(range(o)) if isinstance(o, int) else list(o)
        return o[self.k % len(o)]

    dev = pick

    def perm(self, _n, o):
        return list(o)

    deep = False


STRINGS = [string(Fixed(k)) for k in (0, 1, 2, 5)]


def report(c):
    """Generation report of the main output."""
    w = Writer(c, kinds=("pos", "neg", "zero", "wide"))
    n = c.pick("reports", [1, 2])
    txt, exp, filled = "", [], []
    for r in range(n):
        el = c.dev(f"el{r}", ["Mn", "H", "O"])
        q = w.F("charge", 5, 2, kinds=("wide", "pos", "zero"), pad=0)
        if not q.startswith(" "):
            filled.append(r)
        lev = c.dev(f"level{r}", ["LDA", "PBE", "PBE_SOL", "B3LYP"])
        sol = c.dev(f"solver{r}", ["Koelling-Harmon", "Schroedinger", "FR", "Koelling Harmon"])
        e = {"element": el, "ionic_charge": q.v, "level_of_theory": lev, "solver": sol, "reference_electronic_structure": [], "pseudopotential_definition": []}
        L = ["=" * 60, "| Pseudopotential Report - Date of generation 14-07-2023   |", "-" * 60,
             f"| Element: {el} Ionic charge: {q} Level of theory: {lev:<8}|", f"| Atomic Solver: {sol:<42}|", f"|{'':58}|",
             "|               Reference Electronic Structure             |", "|         Orbital         Occupation         Energy        |"]
        rows = c.pick(f"rows{r}", [1, 3, 0])
        for i in range(rows):
            orb = c.dev(f"orb{r}.{i}", [["2s", "3s1/2", "3p1/2"][i], "4f5/2", "3d10"])
            o, en = w.F("occ", 7, 3, kinds=("pos", "zero", "wide")), w.F("energy", 10, 3)
            L.append(f"|          {orb:<11} {o:>11}        {en:>10}        |")
            e["reference_electronic_structure"].append({"orb": orb, "occupation": o.v, "energy": en.v})
        L += [f"|{'':58}|", "|                 Pseudopotential Definition               |", "|      Beta    l   2j     e      Rc     scheme   norm      |"]
        for i in range(rows):
            b = c.dev(f"beta{r}.{i}", [i + 1, "loc", 12])
            l = i
            j = c.dev(f"j{r}.{i}", [None, 1, 3])
            en, rc = w.F("e", 8, 3), w.F("Rc", 7, 3, kinds=("pos", "zero"))
            sch = c.dev(f"scheme{r}.{i}", ["qc", "pn", "tm"])
            nm = c.dev(f"norm{r}.{i}", [0, 1])
            L.append(f"|      {b!s:>3}     {l}    {' ' if j is None else j}   {en} {rc}     {sch}     {nm}        |")
            e["pseudopotential_definition"].append({"beta": b, "l": l, "j": j, "e": en.v, "Rc": rc.v, "scheme": sch, "norm": nm})
        L.append(f"|{'':58}|")
        for key, on, off in (("augmentation_charge_rinner", "Augmentation charge Rinner = ", "No charge augmentation"), ("partial_core_correction", "Partial core correction Rc = ", "No partial core correction")):
            if c.dev(f"{key}{r}", [1, 0]):
                x = w.f(key, 3, kinds=("pos", "zero"))
                e[key] = [x.v]
                L.append(f"| {on + x:<57}|")
            else:
                L.append(f"| {off:<57}|")
        s, d = c.dev(f"string{r}", STRINGS)
        e["detail"] = d
        L += ["-" * 60, f"| {chr(34) + s + chr(34):<57}|", "-" * 60, "|      Author: Chris J. Pickard, Cambridge University      |", "=" * 60, ""]
        txt += "\n".join("   " + x if x else "" for x in L) + "\n"
        exp.append(e)
    try:
        got = canon(parse_castep_file(io.StringIO(txt)))
    except Hang:
        raise
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": txt}) from None
    d = diff([{"pspot_detail": exp}], got)
    if d:
        drop = {True: {"detail"}, False: {"detail", "element", "ionic_charge", "level_of_theory"}}
        known = [{"pspot_detail": [{k: v for k, v in e.items() if k not in drop[i in filled]} for i, e in enumerate(exp)]}]
        fid = "C19-report-string" if len(filled) == n else "C19-report-charge"
        raise Violation(show(d), {"text": txt, "got": repr(got)}, finding=None if diff(known, got) else fid)


MODELS = [("strings", strings, 1, 1), ("groups", groups, 2, 2), ("projectors", projectors, 1, 1), ("several", several, 1, 1), ("library", library, 0, 0), ("report", report, 1, 2)]
