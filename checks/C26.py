"""Run set-up report."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C26", loose=("options", "symmetry"), bounds={"options": (2, 3), "symmetry": (2, 2)},
                known={"kpoints_list": "C26-kpoint-z"}, big=("positions",))
