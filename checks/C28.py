"""Population, spin, bond and charge analyses."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C28")
