"""Forces and stresses."""
from mc.secs import ASSUME as ASSUMPTIONS, models  # noqa: F401

MODELS = models("C27")
