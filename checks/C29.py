"""Lattice dynamics and linear response."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C29", loose=("phonons",), bounds={"phonons": (2, 2)}, big=("dynamical_matrix", "raman"))
