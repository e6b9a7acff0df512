"""The header block shared by the phonon-like files."""

SPECS = {"plain": ("Si", "O", "Fe"), "same": ("H", "H", "H"), "tagged": ("H:D", "H", "Si:a1")}


def header(c, w, counts, nions, extra=(), specs=None, after=(), ind=1):
    """counts: [(name, key, value)]; extra: raw lines; returns (lines, expected)."""
    lines, exp = [" BEGIN header"], {}
    for name, val in counts:
        lines.append(f" Number of {name:<14} {val:>4}")
        exp[name] = val
    lines += list(extra)
    lines.append(" Unit cell vectors (A)")
    exp["unit_cell"] = []
    for _ in range(3):
        v = [w.F("cell", 12, 6, kinds=("pos", "neg", "zero")) for _ in range(3)]
        lines.append("".join(v))
        exp["unit_cell"].append([x.v for x in v])
    lines.append(" Fractional Co-ordinates")
    co = {"index": [], "u": [], "v": [], "w": [], "spec": [], "mass": []}
    names = specs or SPECS["plain"]
    for i in range(nions):
        u = [w.F("frac", 12, 6, hi=1.0, kinds=("pos", "neg", "zero")) for _ in range(3)]
        m = w.F("mass", 14, 6, kinds=("pos", "wide"))
        s = names[i % len(names)]
        lines.append(f"{i + 1:6d} {u[0]}{u[1]}{u[2]}   {s:<4}{m}")
        for k, v in zip(co, (i + 1, u[0].v, u[1].v, u[2].v, s, m.v)):
            co[k].append(v)
    exp["coords"] = co
    lines.append(" END header")
    return lines, exp
