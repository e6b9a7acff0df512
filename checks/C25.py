"""Energies and convergence tables."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C25", loose=("scf",), bounds={"scf": (2, 3)}, big=("bsc",))
