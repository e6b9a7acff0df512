"""Bounded exhaustive exploration of the real castep_outputs code (see DESIGN.md)."""
