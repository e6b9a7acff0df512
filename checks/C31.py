"""Pair potentials."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C31", bounds={"pair_params": (3, 4)}, loose={"pair_params"})
