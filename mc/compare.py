"""Canonical form and comparison of parsed data."""
from __future__ import annotations

import enum
import math
from collections.abc import Mapping

import copy
import datetime


class Close(float):
    """A derived value: equal up to rounding of the arithmetic."""

    def __eq__(self, other):
        return abs(float(self) - float(other)) <= 1e-9 * max(1.0, abs(float(self)))

    def __ne__(self, other):
        return not self == other

    __hash__ = float.__hash__


def canon(obj):
    """Plain containers: mappings as dict, sequences as list, everything else as is."""
    if isinstance(obj, Mapping):
        return {k: canon(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [canon(x) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return {"__set__": sorted(map(repr, obj))}
    return obj


def same_leaf(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, complex) and isinstance(b, complex):
        return a == b
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        return a == b
    return type(a) is type(b) and a == b


def diff(exp, got, path=(), out=None, limit=6):
    """List of (path, expected, got) differences."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(exp, Mapping) and isinstance(got, Mapping):
        for k in exp:
            if k not in got:
                out.append((path + (k,), exp[k], "<missing>"))
            else:
                diff(exp[k], got[k], path + (k,), out, limit)
        for k in got:
            if k not in exp:
                out.append((path + (k,), "<absent>", got[k]))
    elif isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        for i, (a, b) in enumerate(zip(exp, got)):
            diff(a, b, path + (i,), out, limit)
        if len(exp) != len(got):
            out.append((path + ("#len",), len(exp), len(got)))
    elif not same_leaf(exp, got):
        out.append((path, exp, got))
    return out[:limit]


def same(a, b):
    return not diff(a, b, limit=1)


def submodel(part, whole, path=()):
    """Is every piece of `part` also in `whole` (sequences: as a leading part)? Returns None or the path."""
    if isinstance(part, Mapping):
        if not isinstance(whole, Mapping):
            return path
        for k, v in part.items():
            if k not in whole:
                return path + (k,)
            bad = submodel(v, whole[k], path + (k,))
            if bad is not None:
                return bad
        return None
    if isinstance(part, (list, tuple)):
        if not isinstance(whole, (list, tuple)) or len(part) > len(whole):
            return path + ("#len",)
        for i, (a, b) in enumerate(zip(part, whole)):
            bad = submodel(a, b, path + (i,))
            if bad is not None:
                return bad
        return None
    return None if same_leaf(part, whole) else path


def show(d):
    return "; ".join(f"{'/'.join(map(str, p))}: expected {str(e)[:120]!r} got {str(g)[:120]!r}" for p, e, g in d)
