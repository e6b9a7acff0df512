"""Predicted output files against a rule table, over combinations of task and controlling parameters."""
import copy
import os
import shutil
import tempfile
from pathlib import Path

from mc.core import Violation

ASSUMPTIONS = ["the documented rules are those of the table RULES, written from the tool's documentation and CASTEP's",
               "values are those the .param/.cell reader produces (logicals as booleans)",
               "potentials are taken to be ultrasoft unless given as files of another kind, about which nothing is claimed"]

TASKS = {
    "SINGLEPOINT": ("SINGLEPOINT", "SPE", "ENERGY"), "PHONON": ("PHONON",),
    "PHONON_EFIELD": ("PHONON_EFIELD", "PHONON+EFIELD", "PHONONEFIELD"), "EFIELD": ("EFIELD",),
    "THERMODYNAMICS": ("THERMODYNAMICS",), "EPCOUPLING": ("EPCOUPLING",), "ELASTIC": ("ELASTIC",),
    "GEOMOPT": ("GEOMOPT", "GEOMETRYOPTIMISATION", "GEOMETRYOPTIMIZATION", "GEOM", "GEOMETRY OPTIMISATION"),
    "MD": ("MD", "MOLECULARDYNAMICS", "MOLECULAR DYNAMICS", "DYNAMICS"),
    "TSS": ("TRANSITION_STATE_SEARCH", "TSS", "TRANSITIONSTATESEARCH", "TRANSITION STATE SEARCH"),
    "MAGRES": ("MAGRES",), "AUTOSOLVATION": ("AUTOSOLVATION",),
    "SPECTRAL": ("SPECTRAL", "ELECTRONICSPECTROSCOPY", "BANDSTRUCTURE", "ELNES", "OPTICS"),
}
CASES = (str.lower, str.upper, str.title)


class P:
    """Parameters with defaults, keywords compared without case."""

    def __init__(self, param, cell):
        self.d, self.cell = param, cell
        self.devel = param.get("devel_code", {})
        self.raw = param.get("task", "singlepoint").upper()
        self.task = next(k for k, v in TASKS.items() if self.raw in v)
        none = param.get("write_none")
        self.off = {"write_bib", "write_checkpoint", "write_cst_esp", "write_bands", "write_geom", "write_md"} if none else ()

    def on(self, key, default=False):
        return False if key in self.off else bool(self.d.get(key, default))

    def word(self, key, default):
        return "false" if key in self.off else str(self.d.get(key, default)).lower()

    def num(self, key, default):
        return self.d.get(key, default)

    def dev(self, key, sub=None):
        val = self.devel.get(key)
        return bool(val) if sub is None else bool((val or {}).get(sub))

    @property
    def pp(self):
        return self.dev("_pp")

    @property
    def xc(self):
        xcd = self.d.get("xc_definition")
        return {k.lower() for k in xcd["xc"]} if xcd else {self.word("xc_functional", "lda")}

    def xc_any(self, *names):
        return any(x in names or any(n.endswith("*") and x.startswith(n[:-1]) for n in names) for x in self.xc)

    @property
    def mgga(self):
        return self.xc_any("ms2", "rscan", "r2scan", "libxc_mgga*", "libxc_hyb_mgga*")

    @property
    def nlxc(self):
        return self.xc_any("hf", "hf-lda", "shf", "sx-lda", "shf-lda", "pbe0", "b3lyp", "hse03", "hse06", "spbe0")

    @property
    def spin(self):
        return self.word("spin_treatment", "none") == "vector" or any(
            self.on(k) for k in ("spin_orbit_coupling", "spin_polarised", "spin_polarized"))

    def spectral(self):
        """Matrix elements calculated; None if the combination is impossible."""
        theory, what, nl = self.word("spectral_theory", "dft"), self.word("spectral_task", "bandstructure"), self.nlxc
        if theory == "tddft":
            if what == "coreloss":
                return None
            calc = {"dome"} if what in ("optics", "all") else set()
        else:
            if what == "coreloss" and nl:
                return None
            calc = {"coreloss": {"elnes", "ome"}, "optics": {"dome"}, "dos": {"ome"}, "bandstructure": set(),
                    "all": {"elnes", "ome", "dome"}}[what]
            if nl:
                calc = calc if what == "optics" else set()
        if self.on("pdos_calculate_weights"):
            calc = calc | {"pdos"}
        dev = self.devel.get("spectral", {})
        calc = set(calc)
        for key, name in (("calc_core", "elnes"), ("calc_ome", "ome"), ("calc_dome", "dome"), ("calc_pdos", "pdos")):
            if key in dev:
                (calc.add if dev[key] else calc.discard)(name)
        return {f".{x}_bin" if theory == "dft" else f"_tddft.{x}_bin" for x in calc}

    def extrapolation(self):
        """Wavefunction history kept by molecular dynamics (number of steps)."""
        if self.word("metals_method", "dm") != "dm":
            return 0
        if not (self.word("opt_strategy", "default") == "memory" or self.num("opt_strategy_bias", 0) >= 0):
            return 0
        return {"first": 1, "second": 2, "mixed": 2}.get(self.word("md_extrap", "first"), 0)


RULES = [
    ((".castep",), lambda p: True),
    ((".check",), lambda p: p.word("write_checkpoint", "all") in ("true", "all", "both", "full")),
    ((".castep_bin",), lambda p: p.word("write_checkpoint", "all") in ("true", "all", "both", "full", "minimal")),
    ((".bands",), lambda p: p.on("write_bands", True) and not p.pp and not p.num("tddft_selected_state", 0)),
    (("_tddft.bands",), lambda p: p.on("write_bands", True) and not p.pp and p.num("tddft_selected_state", 0)),
    (("_*.orbit_fmt",), lambda p: p.dev("write_formatted_bands")),
    ((".bib",), lambda p: p.on("write_bib", True)),
    ((".cst_esp",), lambda p: p.on("write_cst_esp", True) and not p.pp),
    ((".pot_fmt",), lambda p: p.on("write_formatted_potential")),
    ((".oep_fmt",), lambda p: p.on("write_formatted_potential") and p.xc_any("oep", "lfx", "elp", "ceda")),
    ((".den_fmt",), lambda p: p.on("write_formatted_density")),
    ((".chdiff",), lambda p: p.on("calculate_densdiff")),
    ((".chdiff_fmt",), lambda p: p.on("calculate_densdiff") and p.on("write_formatted_density")),
    ((".elf",), lambda p: p.on("calculate_elf")),
    ((".elf_fmt",), lambda p: p.on("calculate_elf") and p.on("write_formatted_elf")),
    ((".eps_format",), lambda p: p.on("write_formatted_dielec_perm")),
    ((".orbitals",), lambda p: p.on("write_orbitals") or p.raw == "BANDSTRUCTURE"),
    (("-out.cif",), lambda p: p.on("write_cif_structure")),
    (("-out.cell",), lambda p: p.on("write_cell_structure") or p.task == "SPECTRAL"),
    ((".efield",), lambda p: p.on("efield_calc_ion_permittivity") or p.task in ("EFIELD", "PHONON_EFIELD")),
    ((".modos_state*",), lambda p: p.on("calculate_modos")),
    ((".scf_zdos",), lambda p: p.dev("zdos_scf")),
    ((".altden",), lambda p: p.dev("write_unformatted_density")),
    ((".*.profile",), lambda p: p.dev("trace") or p.dev("prof") or p.dev("profclass")),
    ((".hybrid-md.xyz",), lambda p: p.dev("pp_hybrid") and p.task in ("GEOMOPT", "MD")),
    ((".B_xc.pot_fmt",), lambda p: p.dev("lda_sf_pot_write") and p.spin),
    ((".xrd_sf",), lambda p: p.dev("calculate_xrd_sf")),
    ((".spectral_zdos",), lambda p: p.dev("zdos_spectral") and p.task == "SPECTRAL"),
    ((".fd",), lambda p: p.pp and p.dev("pp", "fd_check")),
    ((".pdos_weights",), lambda p: p.on("pdos_calculate_weights") and p.raw not in ("BANDSTRUCTURE", "ELECTRONICSPECTROSCOPY")),
    ((".elastic",), lambda p: p.dev("calc_elastic") or "elastic" in p.devel),
    ((".vacuum_den",), lambda p: p.task == "AUTOSOLVATION"),
    ((".epme",), lambda p: p.task == "EPCOUPLING"),
    (("-*-*-*.ep_pot",), lambda p: p.task == "EPCOUPLING" or (
        p.task in ("PHONON", "PHONON_EFIELD") and p.dev("phonon", "write_first_order_potential"))),
    ((".geom",), lambda p: p.task == "GEOMOPT" and p.on("write_geom", True)),
    ((".pes",), lambda p: p.task == "GEOMOPT" and p.word("geom_method", "") == "pes"),
    ((".*.spec",), lambda p: p.task == "SPECTRAL" and p.on("spectral_restart", True)),
    ((".nc_spinvec",), lambda p: p.task == "SPECTRAL" and "spectral_spinvec" in p.devel and "spectral_spinvec_append" in p.devel),
    ((".md",), lambda p: p.task == "MD" and p.on("write_md", True)),
    ((".hug",), lambda p: p.task == "MD" and p.word("md_ensemble", "") in ("nvhug", "nphug")),
    ((".*.wfm", ".*.drhom"), lambda p: p.task == "MD" and p.extrapolation() >= 1),
    ((".*.wf2m", ".*.drho2m"), lambda p: p.task == "MD" and p.extrapolation() == 2),
    ((".magres",), lambda p: p.task == "MAGRES"),
    ((".ts",), lambda p: p.task == "TSS"),
    ((".phonon",), lambda p: p.task in ("PHONON", "PHONON_EFIELD")),
    ((".phonon_dos",), lambda p: p.task in ("PHONON", "PHONON_EFIELD") and p.on("phonon_calculate_dos")),
    ((".tddft",), lambda p: p.num("tddft_selected_state", 0) > 0),
    ((".td_den",), lambda p: p.num("tddft_selected_state", 0) > 0 and p.dev("tddft", "den1_write")),
]
FIXED = [
    (("current.dat", "gsden.cube"), lambda p: p.task == "MAGRES" and p.on("magres_write_response")),
    (("den_dump*.dat",), lambda p: p.num("tddft_selected_state", 0) > 0 and p.dev("tddft", "save_td_den_fmt")),
]

OTF_THEORY = {"pw91": "PBE", "pbe": "PBE", "rpbe": "RPBE", "pbesol": "PBESOL", "wc": "WC", "blyp": "BLYP", "ms2": "MS2",
              "rscan": "RSCAN", "r2scan": "RSCAN", "lda_pw": "LDA_PW", "lda": "LDA", "hf": "LDA", "oep": "LDA"}


def expected(param, cell, seed):
    """Files the rules demand, None if the combination is refused."""
    p = P(param, cell)
    out = set()
    for names, rule in RULES:
        if rule(p):
            out |= {seed + n for n in names}
    for names, rule in FIXED:
        if rule(p):
            out |= set(names)
    if p.task == "SPECTRAL":
        spec = p.spectral()
        if spec is None:
            return None
        out |= {seed + x for x in spec}
    if p.task == "MD" and p.num("md_num_beads", 1) > 1 and p.num("num_farms", 1) > 1:
        out |= {f"{seed}_farm{i:03d}.castep" for i in range(p.num("num_farms", 1))}
    if p.task in ("PHONON", "PHONON_EFIELD") and p.dev("phonon", "write_external_born"):
        out.add(p.devel["phonon"]["write_external_born"])
    if p.pp and p.dev("pp", "pot_print"):
        if cell:
            names = list(dict.fromkeys(s for s, _ in (cell.get("positions_frac") or cell.get("positions_abs") or {})))
            out |= {f"{seed}_{a}_{b}.pot" for i, a in enumerate(names) for b in names[i:]}
        else:
            out.add(f"{seed}_*_.pot")
    for spec, pot in (cell or {}).get("species_pot", {}).items():
        if isinstance(pot, str):
            continue
        if p.xc_any("libxc_mgga*", "libxc_hyb_mgga*"):
            theory = "RSCAN"
        elif p.xc_any("libxc_gga*", "libxc_hyb_gga*"):
            theory = "PBE"
        else:
            theory = next((OTF_THEORY[x] for x in sorted(p.xc) if OTF_THEORY.get(x, "LDA") != "LDA"), "LDA")
        otf = f"{spec}_EXT_{theory}_OTF"
        if pot.get("print"):
            out |= {f"{otf}.{x}" for x in ("gamma", "pwave", "beta", "econv")}
        if not p.mgga and p.on("write_otfg", True):
            out.add(f"{otf}.uspso" if p.spin else f"{otf}.usp")
    return out


def run(param, cell, seed="seedname", how=None):
    from castep_outputs.tools.get_generated_files import get_generated_files
    before = copy.deepcopy((param, cell))
    want = expected(param, cell, Path(seed).name)
    kw = {"param_data": param, "cell_data": cell}
    try:
        got = get_generated_files(seed, **kw)
    except KeyError:
        if want is not None:
            raise Violation(f"refused although possible: {param}", {"cell": cell}) from None
        got = None
    if (param, cell) != before or list(param) != list(before[0]):
        raise Violation(f"parameters changed: {before[0]} -> {param}")
    if got is None:
        return "refused"
    if want is None:
        raise Violation(f"impossible combination accepted: {param}")
    if len(set(got)) != len(got):
        raise Violation(f"duplicates in {got}", {"param": param})
    if set(got) != want:
        raise Violation(f"missing {sorted(want - set(got))}, extra {sorted(set(got) - want)} for {param} {cell}")
    again = get_generated_files(seed, param_data=dict(reversed(list(param.items()))), cell_data=cell)
    if again != got:
        raise Violation(f"order depends on the order of parameters: {got} / {again}")
    return f"{len(got)}"


CELLS = [
    {"positions_frac": {("Si", 1): {}, ("N", 1): {}, ("Si", 2): {}}},
    {},
    {"positions_abs": {("H", 1): {}, ("O", 1): {}, ("H", 2): {}}},
    {"positions_frac": {("Si", 1): {}}, "species_pot": {"Si": {"print": True, "string": "x"}, "N": {"string": "y"}}},
    {"positions_frac": {("Si", 1): {}}, "species_pot": {"Si": "Si_00.usp", "N": {"print": False, "string": "y"}}},
    {"positions_frac": {("Si", 1): {}}, "species_pot": {None: "C19"}},
    {"lattice_cart": {"a": (1, 0, 0)}},
]

B = (True, False)
SETTINGS = [
    *(((k,), v) for k in ("write_formatted_potential", "write_formatted_density", "calculate_densdiff", "calculate_elf",
                          "write_formatted_elf", "write_formatted_dielec_perm", "write_orbitals", "write_cif_structure",
                          "write_cell_structure", "efield_calc_ion_permittivity", "calculate_modos", "pdos_calculate_weights",
                          "write_otfg", "write_none", "write_bib", "write_cst_esp", "write_bands", "write_geom", "write_md",
                          "spin_orbit_coupling", "spin_polarised", "spin_polarized", "spectral_restart",
                          "magres_write_response", "phonon_calculate_dos") for v in B),
    *((("write_checkpoint",), v) for v in (True, False, "none", "ALL", "Minimal", "both", "full")),
    *((("tddft_selected_state",), v) for v in (0, 1, 3)),
    *((("spin_treatment",), v) for v in ("none", "Vector", "scalar")),
    *((("xc_functional",), v) for v in ("PBE", "lda", "HSE06", "rscan", "OEP", "PBEsol", "hf", "PW91")),
    *((("xc_definition",), v) for v in ({"xc": {"PBE": 0.75, "HF": 0.25}}, {"xc": {"libxc_gga_x_pbe": 1.0}},
                                        {"xc": {"LIBXC_MGGA_X_SCAN": 1.0}}, {"xc": {"libxc_hyb_gga_xc_b3": 1.0}},
                                        {"xc": {"lda": 0.5, "blyp": 0.5}}, {"xc": {"libxc_lda_x": 1.0}})),
    *((("spectral_task",), v) for v in ("BandStructure", "optics", "DOS", "coreloss", "ALL")),
    *((("spectral_theory",), v) for v in ("dft", "TDDFT")),
    *((("geom_method",), v) for v in ("pes", "PES", "lbfgs")),
    *((("md_ensemble",), v) for v in ("NVE", "nvhug", "NPHUG", "NVHug")),
    *((("md_extrap",), v) for v in ("none", "First", "second", "MIXED")),
    *((("opt_strategy",), v) for v in ("memory", "Speed", "default")),
    *((("opt_strategy_bias",), v) for v in (-1, 0, 2)),
    *((("metals_method",), v) for v in ("DM", "edft", "none")),
    *((("md_num_beads",), v) for v in (1, 4)), *((("num_farms",), v) for v in (1, 2, 12)),
    *((("devel_code", k), v) for k in ("write_formatted_bands", "zdos_scf", "write_unformatted_density", "trace", "prof",
                                       "profclass", "pp_hybrid", "lda_sf_pot_write", "calculate_xrd_sf", "zdos_spectral",
                                       "_pp", "spectral_spinvec", "spectral_spinvec_append", "calc_elastic") for v in B),
    *((("devel_code", "pp", k), True) for k in ("pot_print", "fd_check")),
    (("devel_code", "elastic", "x"), True),
    *((("devel_code", "spectral", k), v) for k in ("calc_core", "calc_ome", "calc_pdos", "calc_dome") for v in B),
    (("devel_code", "phonon", "write_external_born"), "born.dat"),
    (("devel_code", "phonon", "write_first_order_potential"), True),
    *((("devel_code", "tddft", k), True) for k in ("den1_write", "save_td_den_fmt")),
]


def put(param, key, value):
    for k in key[:-1]:
        param = param.setdefault(k, {})
    param[key[-1]] = value


def tasks(c, full):
    names = sorted(TASKS)
    raw = [w for n in names for w in TASKS[n]] if full else ["SINGLEPOINT", "PHONON", "GEOMOPT", "MD", "BANDSTRUCTURE", "SPECTRAL", "MAGRES",
                                                            "PHONON+EFIELD", None]
    return c.pick("task", raw)


def translate(raw):
    """Spelling with spaces names the same task as without."""
    return raw.replace(" ", "")


def settings(c):
    """Every pair (thorough: triple, on selected tasks) of settings, for every task."""
    n = 3 if c.deep else 2
    task = tasks(c, not c.deep)
    param = {} if task is None else {"task": task.lower()}
    idx = 0
    for k in range(n):
        i = c.pick(f"setting{k}", range(idx, len(SETTINGS) + 1))
        if i == len(SETTINGS):
            break
        idx = i + 1
        put(param, *SETTINGS[i])
    return check(param, c.pick("cell", (CELLS[0], CELLS[3]) if n == 2 else CELLS[:1]))


def check(param, cell, seed="seedname"):
    if "task" in param and " " in param["task"]:
        real = dict(param)
        want = expected({**param, "task": translate(param["task"])}, cell, Path(seed).name)
        from castep_outputs.tools.get_generated_files import get_generated_files
        try:
            got = set(get_generated_files(seed, param_data=param, cell_data=cell))
        except KeyError:
            got = None
        if got != want:
            raise Violation(f"missing {sorted((want or set()) - (got or set()))}, extra {sorted((got or set()) - (want or set()))} for {real}")
        return "spaced"
    return run(copy.deepcopy(param), copy.deepcopy(cell), seed)


def product(c, group):
    """All combinations of the settings that act together."""
    task, keys = c.pick("of", group)
    case = c.pick("case", CASES)
    param = {} if task is None else {"task": case(task)}
    cell = c.pick("cell", CELLS)
    for key in keys:
        vals = [v for k, v in SETTINGS if k == key]
        v = c.pick(".".join(key), [None, *vals])
        if v is not None:
            put(param, key, case(v) if isinstance(v, str) and len(key) == 1 else v)
    return check(param, cell)


def keys(*names):
    return [tuple(n.split("/")) for n in names]


GROUPS = [
    ("SINGLEPOINT", keys("write_none", "write_bib", "write_checkpoint", "write_cst_esp", "write_bands", "devel_code/_pp", "tddft_selected_state")),
    ("GEOM", keys("write_none", "write_geom", "geom_method", "devel_code/pp_hybrid", "devel_code/_pp")),
    ("MD", keys("write_none", "write_md", "md_ensemble", "md_num_beads", "num_farms")),
    ("MD", keys("md_extrap", "opt_strategy", "opt_strategy_bias", "metals_method")),
    ("SPECTRAL", keys("spectral_task", "spectral_theory", "xc_functional", "pdos_calculate_weights")),
    ("ELNES", keys("spectral_task", "spectral_theory", "devel_code/spectral/calc_core", "devel_code/spectral/calc_ome",
                   "devel_code/spectral/calc_pdos", "devel_code/spectral/calc_dome")),
    ("BANDSTRUCTURE", keys("spectral_theory", "xc_definition", "pdos_calculate_weights", "write_orbitals", "spectral_restart")),
    ("OPTICS", keys("devel_code/spectral_spinvec", "devel_code/spectral_spinvec_append", "devel_code/zdos_spectral", "spectral_task")),
    ("ENERGY", keys("xc_functional", "xc_definition", "spin_treatment", "spin_polarised", "write_otfg")),
    (None, keys("xc_functional", "write_formatted_potential", "write_formatted_density", "calculate_densdiff", "calculate_elf", "write_formatted_elf")),
    (None, keys("devel_code/lda_sf_pot_write", "spin_treatment", "spin_orbit_coupling", "spin_polarised", "spin_polarized")),
    ("SPE", keys("devel_code/_pp", "devel_code/pp/pot_print", "devel_code/pp/fd_check", "devel_code/trace", "devel_code/prof", "devel_code/profclass")),
    ("PHONON", keys("phonon_calculate_dos", "devel_code/phonon/write_external_born", "devel_code/phonon/write_first_order_potential", "efield_calc_ion_permittivity")),
    ("PHONON+EFIELD", keys("phonon_calculate_dos", "devel_code/phonon/write_external_born", "devel_code/phonon/write_first_order_potential", "efield_calc_ion_permittivity")),
    ("MAGRES", keys("magres_write_response", "tddft_selected_state", "devel_code/tddft/den1_write", "devel_code/tddft/save_td_den_fmt")),
]


def groups(c):
    """Full product of settings acting together."""
    return product(c, [GROUPS[i] for i in range(len(GROUPS))])


# ------------------------------------------------------------------ seeds and input files

DIRS = {}


def setup(deep):
    DIRS["root"] = tempfile.mkdtemp(prefix="mc-c32-")


def teardown():
    shutil.rmtree(DIRS["root"])


PARAM = "task : GeometryOptimisation\nwrite_checkpoint : none\nwrite_formatted_density : true\ngeom_method : PES\n"
CELL = "%block positions_frac\nSi 0 0 0\nN 0.5 0.5 0.5\n%endblock positions_frac\n%block species_pot\nSi 2|1.4|6|7|8|20:21(qc=5)\n%endblock species_pot\n"
PD = {"task": "GeometryOptimisation", "write_checkpoint": "none", "write_formatted_density": True, "geom_method": "PES"}
CD = {"positions_frac": {("Si", 1): {}, ("N", 1): {}}, "species_pot": {"Si": {"string": "x"}}}


def seeds(c):
    """Seed spellings, and inputs from files of the seed, from other files, as data, or absent."""
    from castep_outputs.tools.get_generated_files import get_generated_files
    name = c.pick("name", ("seed", "a.b", "Si-1.50", "x_y", "seed.cell", "seed.param"))
    where = c.pick("where", ("", "sub", "abs", "dot"))
    as_path = c.flag("path object")
    param, cell = c.pick("param", ("absent", "seed", "file", "data", "all")), c.pick("cell", ("absent", "seed", "file", "data", "all"))
    root = Path(tempfile.mkdtemp(dir=DIRS["root"]))
    old = Path.cwd()
    try:
        os.chdir(root)
        (root / "sub").mkdir()
        base = {"": root, "sub": root / "sub", "abs": root / "sub", "dot": root}[where]
        seed = {"": name, "sub": f"sub/{name}", "abs": str(root / "sub" / name), "dot": f"./{name}"}[where]
        stem = name.removesuffix(".cell").removesuffix(".param")
        kw = {}
        for kind, how, good, data in (("param", param, PARAM, PD), ("cell", cell, CELL, CD)):
            wrong = {"param": "task : md\n", "cell": "%block positions_frac\nH 0 0 0\n%endblock positions_frac\n"}[kind]
            if how in ("seed", "file", "data", "all"):
                text = good if how == "seed" else wrong
                if how != "data":
                    (base / f"{stem}.{kind}").write_text(text)
            if how in ("file", "all"):
                other = root / f"other.{kind}"
                other.write_text(good if how == "file" else wrong)
                kw[f"{kind}_file"] = other
            if how in ("data", "all"):
                kw[f"{kind}_data"] = data
        got = get_generated_files(Path(seed) if as_path else seed, **kw)
    finally:
        os.chdir(old)
        shutil.rmtree(root)
    want = sorted(expected(PD if param != "absent" else {}, CD if cell != "absent" else {}, stem))
    if got != want:
        raise Violation(f"seed {seed!r} param {param} cell {cell}: {got}, expected {want}")
    return f"{len(got)}"


MODELS = [("settings", settings, 0, 0), ("groups", groups, 0, 0), ("seeds", seeds, 0, 0)]
