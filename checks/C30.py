"""Spectroscopy and electronic-structure tables."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C30", known={"berry_phase_verbose": "C30-berry-overwrite", "md_data": "C30-md-t0-pressure"}, big=("band_structure",), bounds={"berry_phase_verbose": (1, 1)})
