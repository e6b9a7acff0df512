"""TDDFT, error and electron-phonon text files."""
from castep_outputs import parse_epme_file, parse_err_file, parse_tddft_file

from mc.gen import Num, Writer, check

S3 = ("pos", "neg", "zero")
ATOMS = {"none": [], "two": [("B", 1), ("N", 2)], "same": [("B", 1), ("B", 2), ("Si", 12)], "tagged": [("H:D", 1), ("H", 1)]}


# ---- .tddft
def tddft(c, w, atoms, nspin, states, rows, order, skip_header=False):
    head, ehead = ["BEGIN header", " CASTEP generated TDDFT output"], {}
    occ = []
    for s in range(nspin):
        n = w.I("occ", kinds=("pos", "wide"))
        head.append(f" Highest occupied band for spin channel {s + 1}{n:>11}")
        occ.append(n.v)
    head += [" Energies in eV", " Unit cell vectors (A)"]
    ehead["unit_cell"] = []
    for _ in range(3):
        v = [w.F("cell", 12, 6, kinds=S3) for _ in range(3)]
        head.append("".join(v))
        ehead["unit_cell"].append([x.v for x in v])
    head.append(" Fractional Co-ordinates")
    ehead["coords"] = {}
    for s, i in atoms:
        v = [w.F("frac", 13, 6, hi=1.0, kinds=S3) for _ in range(3)]
        head.append(f" {s:<5}{i:6d}{''.join(v)}")
        ehead["coords"][s, i] = [x.v for x in v]
    head.append("END header")
    over, eover = ["BEGIN Characterisation of states as Kohn-Sham bands", " State      Occ.         Unocc.        Overlap"], []
    for n, pairs in enumerate(states, 1):
        e = {}
        for a, b in pairs:
            v = w.F("overlap", 15, 6, kinds=S3)
            over.append(f"{n:10d}{a:10d} -->{b:11d}{v}")
            e[a, b] = v.v
        t = w.f("total", 6, kinds=("pos", "zero"))
        over.append(f" Total overlap for state{n:5d} = {t}")
        e["total"] = t.v
        eover.append(e)
    over.append("END Characterisation of states as Kohn-Sham bands")
    spec, espec = ["BEGIN TDDFT Spectroscopic Data",
                   " State   Excitation Energy         Characterisation   Converged  Transition Dipoles (x,y,z)"], []
    for n, (char, conv) in enumerate(rows, 1):
        en = w.E("energy", 25, 16, kinds=("pos", "tiny", "huge", "zero"))
        d = [w.E("dipole", 23, 16, kinds=("pos", "neg", "zero", "negtiny")) for _ in range(6)]
        spec.append(f"{n:10d}{en}       {char:<12}{'      Yes' if conv else '       No'}     "
                    + "   ".join(f"({d[i]} {d[i + 1]})" for i in (0, 2, 4)))
        espec.append({"energy": en.v, "characterisation": char, "converged": conv,
                      "dipoles": [complex(d[i].v, d[i + 1].v) for i in (0, 2, 4)]})
    spec.append("END TDDFT Spectroscopic Data")
    parts = {"h": (head, ehead), "o": (over, {"overlap": eover}), "s": (spec, {"spectroscopic_data": espec})}
    lines, alt = [], {}
    for p in order:
        lines += parts[p][0]
        alt.update(parts[p][1])
    exp = {**alt, "Highest occupied band": occ} if "h" in order else alt
    return "\n".join(lines) + "\n", exp, {"C15-occupied-band": alt} if "h" in order else {}


PAIRS = [[], [(1, 5)], [(3, 6), (3, 7), (4, 6)], [(10, 112), (9, 99)]]
CHARS = [("Singlet", True), ("Triplet", False), ("Doublet", True), ("unknown", False)]


def tddft_shapes(c):
    order = c.perm("section", c.subset("has", "hos"))
    n = c.pick("states", range(4))
    states = [c.pick(f"pairs{i}", PAIRS) for i in range(n)] if "o" in order else []
    rows = [c.pick(f"char{i}", CHARS if c.deep else CHARS[:2]) for i in range(n)] if "s" in order else []
    atoms, nspin = (ATOMS[c.pick("atoms", ATOMS)], c.pick("spins", (1, 2))) if "h" in order and n < 2 else (ATOMS["two"], 1)
    text, exp, known = tddft(c, Writer(c, kinds=("pos",)), atoms, nspin, states, rows, order)
    check(parse_tddft_file, text, exp, known)
    return f"{len(order)} sections"


def tddft_values(c):
    text, exp, known = tddft(c, Writer(c), ATOMS["two"], 2, PAIRS[1:3], CHARS[:2], "hos")
    check(parse_tddft_file, text, exp, known)


# ---- .err
MESSAGES = [[], ["Error with dsytrf in nlpot_prepare_precon_ks"], ["Error one", "  continued: 1.0 2.0"],
            ["Error in check", "", "after a blank line"], ["stack overflow in trace"]]
STACK = ("castep", "nlpot_prepare_precon_ks", "ion_read (deferred)", "castep")


def err(c):
    msg = c.pick("message", MESSAGES)
    stack = [STACK[c.pick(f"s{i}", len(STACK))] for i in range(c.pick("depth", range(6 if c.deep else 5)))]
    ind = c.pick("indent", (" ", "", "    "))
    lines = [*msg, "Current trace stack:", *(ind + s for s in stack)]
    text = "\n".join(lines) + c.pick("end", ("\n", "")) * bool(stack)
    check(parse_err_file, text + ("" if stack else "\n"), {"message": "\n".join(msg).strip(), "stack": stack})


# ---- .epme
def epme(c, w, pairs, nbr, nb, rel="other"):
    vol, ef = w.E("volume", 0, 14, kinds=("pos", "huge")), w.E("fermi", 0, 16, kinds=S3)
    ver = w.I("version", kinds=("pos", "wide"))
    lines = [" Electron-phonon coupling file", f" Version           {ver}", " All units are atomic units", f" Unit cell volume   {vol}     ",
             f" Fermi Energy  {ef}", f" Number of bands:           {nb}", f" Number of phonon branches:           {nbr}"]
    exp = {"version": ver.v, "volume": vol.v, "fermi_energy": ef.v, "n_bands": nb, "n_branches": nbr, "data": []}
    alt = {**exp, "data": []}
    for n in range(pairs):
        k = [w.F("k", 12, 6, hi=10, kinds=S3) for _ in range(6)]
        if rel == "diagonal" and n:  # from a point to itself
            k[3:] = k[:3]
        elif rel == "from same" and n:
            k[:3] = first[:3]
        elif rel == "to same" and n:
            k[3:] = first[3:]
        elif rel == "back" and n % 2:
            k = first[3:] + first[:3]
        elif rel == "again" and n:
            k = first
        first = k if n == 0 else first
        lines.append("Electron-Phonon coupling matrix elements between kpoints (" + "".join(k[:3]) + ") and (" + "".join(k[3:]) + ")")
        lines.append("Ph index  Band_i  Band_f      ph_freq         E_i         E_f          velocity for band 1                 "
                     "velocity for band 2                EP Matrix Element")
        kk = {"kpt_i": [x.v for x in k[:3]], "kpt_f": [x.v for x in k[3:]]}
        for ph in range(1, nbr + 1):
            for i in range(1, nb + 1):
                for f in range(1, nb + 1):
                    v = [w.F(n, 13 if n == "freq" else 12, 6, hi=100, kinds=S3) for n in ("freq", "e", "e", *["vel"] * 6, "ep", "ep")]
                    lines.append(f"{ph:8d}{i:8d}{f:8d}" + "".join(v))
                    x = [t.v for t in v]
                    idx = {"ph_index": ph, "band_i": i, "band_f": f}
                    exp["data"].append({**kk, **idx, "freq": x[0], "e_i": x[1], "e_f": x[2], "velocity": [x[3:6], x[6:9]],
                                        "e_p_matrix": complex(x[9], x[10])})
                    alt["data"].append({**kk, **idx, "e_i": x[0], "e_f": x[1], "velocity": [x[2:5], x[5:8]],
                                        "e_p_matrix": complex(x[8], x[9])})
    return "\n".join(lines) + "\n", exp, {"C15-epme-columns": alt} if exp["data"] else {}


def epme_shapes(c):
    text, exp, known = epme(c, Writer(c, kinds=("pos",)), c.pick("pairs", range(0, 4)), c.pick("branches", (1, 2, 3, 6)), c.pick("bands", (1, 2, 3)),
                            c.pick("points", ("other", "diagonal", "from same", "to same", "back", "again")))
    check(parse_epme_file, text, exp, known)


def epme_values(c):
    text, exp, known = epme(c, Writer(c), 2, 2, 1)
    check(parse_epme_file, text, exp, known)


def large(c):
    """Many states, atoms, calls and coupling blocks."""
    kind, w = c.pick("format", ("tddft", "err", "epme")), Writer(c, kinds=("pos",))
    if kind == "tddft":
        n, m, atoms = c.pick("size", ((120, 3, 2), (2, 150, 2), (3, 3, 150)))
        text, exp, known = tddft(c, w, [(("B", "N")[i % 2], i // 2 + 1) for i in range(atoms)], 2, [[(i + 1, i + n + k) for k in range(m)] for i in range(n)],
                                 [CHARS[i % len(CHARS)] for i in range(n)], "hos")
        check(parse_tddft_file, text, exp, known)
    elif kind == "err":
        n, m = c.pick("size", ((1, 60), (60, 3), (120, 120)))
        msg, stack = [f"message {i}: {w.f('x', 3)}" for i in range(n)], [STACK[i % len(STACK)] for i in range(m)]
        check(parse_err_file, "\n".join([*msg, "Current trace stack:", *(" " + s for s in stack)]) + "\n", {"message": "\n".join(msg), "stack": stack})
    else:
        pairs, nbr, nb = c.pick("size", ((150, 3, 1), (2, 120, 1), (1, 3, 14)))
        text, exp, known = epme(c, w, pairs, nbr, nb, c.pick("points", ("other", "again", "from same")))
        check(parse_epme_file, text, exp, known)
    return kind


MODELS = [("large", large, 0, 0), ("tddft_shapes", tddft_shapes, 0, 0), ("tddft_values", tddft_values, 1, 2), ("err", err, 0, 0),
          ("epme_shapes", epme_shapes, 0, 0), ("epme_values", epme_values, 1, 2)]
