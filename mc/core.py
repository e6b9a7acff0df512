"""
Stateless choice-tree explorer.

A *model* is a deterministic function of a :class:`Chooser`: every decision it takes (which section to
write, how to spell a number, which operation to call next, which thread runs) is a ``choose`` call.
The explorer enumerates the complete tree of decisions within a deviation bound: ``pick`` decisions are
enumerated fully, ``dev`` decisions cost one deviation for anything but their default (first) option.

Nodes of the tree are the states, edges the transitions; every leaf is a complete execution, which is run
on the implementation.  A divergence while replaying a prefix is a hard error.
"""
from __future__ import annotations

import signal
import traceback


class Divergence(Exception):
    """The model is not a deterministic function of its choices."""


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, message, detail=None, finding=None):
        super().__init__(message)
        self.message = message
        self.detail = detail or {}
        self.finding = finding


class Hang(Exception):
    """The implementation did not terminate in time."""


class Chooser:
    """Source of every decision of one execution."""

    def __init__(self, prefix=(), bound=0, deep=False):
        self.prefix = tuple(prefix)
        self.bound = bound
        self.deep = deep
        self.used = 0
        self.trace = []  # (name, n_options, chosen)

    def _choose(self, name, n, costly):
        i = len(self.trace)
        avail = n if (not costly or self.used < self.bound) else 1
        if i < len(self.prefix):
            pname, pn, idx = self.prefix[i]
            if pname != name or pn != avail:
                raise Divergence(f"at choice {i}: recorded {pname}/{pn}, now {name}/{avail}")
        else:
            idx = 0
        if costly and idx:
            self.used += 1
        self.trace.append((name, avail, idx))
        return idx

    def pick(self, name, options):
        """Fully enumerated decision."""
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._choose(name, len(options), False)]

    def dev(self, name, options):
        """Deviation-bounded decision: the first option is free, any other costs one."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._choose(name, len(options), True)]

    def flag(self, name):
        """Fully enumerated boolean, False first."""
        return self.pick(name, (False, True))

    def devflag(self, name):
        """Deviation-bounded boolean, False default."""
        return self.dev(name, (False, True))

    def subset(self, name, options):
        """Fully enumerated subset."""
        return [o for o in options if self.pick(f"{name}:{o}", (False, True))]

    def perm(self, name, items):
        """Fully enumerated permutation."""
        items, out = list(items), []
        while items:
            out.append(items.pop(self.pick(f"{name}{len(out)}", len(items))))
        return out


class Stats:
    """Measured coverage."""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.max_depth = 0
        self.samples = []
        self.outcomes = {}

    def merge(self, other):
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.max_depth = max(self.max_depth, other.max_depth)
        self.samples = (self.samples + other.samples)[:4]
        for k, v in other.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v


def _alarm(_sig, _frm):
    raise Hang("execution did not terminate within its time limit")


def execute(model, prefix, bound, deep, limit=20):
    """Run one execution; returns (trace, used, result-or-None, violation-or-None)."""
    c = Chooser(prefix, bound, deep)
    viol = res = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        res = model(c)
    except Violation as err:
        viol = err
    except Hang as err:
        viol = Violation(str(err))
    except Divergence:
        raise
    except RecursionError as err:
        viol = Violation(f"unbounded recursion: {err}")
    except Exception as err:  # the implementation failed where the model calls it unguarded
        viol = Violation(f"unexpected {fmt_exc(err)}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return c, res, viol


def next_prefix(trace, floor):
    """Next path in depth-first order, not backtracking above `floor` decisions."""
    i = len(trace) - 1
    while i >= floor:
        name, n, idx = trace[i]
        if idx + 1 < n:
            return trace[:i] + [(name, n, idx + 1)]
        i -= 1
    return None


def explore(model, bound, deep, prefix=(), max_viol=12, on_result=None):
    """Exhaustively explore the subtree under `prefix`. Returns (Stats, [(trace, Violation)])."""
    st, viols = Stats(), []
    floor = len(prefix)
    cur, branch = list(prefix), floor - 1
    while True:
        c, res, viol = execute(model, cur, bound, deep)
        # nodes/edges new in this execution: everything below the branching point
        new = len(c.trace) - (branch + 1)
        first = branch < floor  # first execution of the subtree: the root node itself is new
        st.states += new + 1
        st.transitions += new + (0 if first else 1)
        st.traces += 1
        st.max_depth = max(st.max_depth, len(c.trace))
        kind = ("known:" + viol.finding if viol.finding else "violation") if viol else (res if isinstance(res, str) and len(res) < 40 else "ok")
        st.outcomes[kind] = st.outcomes.get(kind, 0) + 1
        if viol:
            viols.append((list(c.trace), c.used, viol))
            if len(viols) >= max_viol and all(v.finding is None for _, _, v in viols[-3:]):
                return st, viols
            if viol.finding and len(viols) > 400:
                viols = viols[:1] + [v for v in viols if v[2].finding is None][:max_viol]
        nxt = next_prefix(c.trace, floor)
        if nxt is None:
            return st, viols
        branch = len(nxt) - 1
        cur = nxt


def split(model, bound, deep, want):
    """Expand the tree breadth-first into at least `want` subtree prefixes (if it is that big)."""
    frontier, leaves, st = [[]], [], Stats()
    while frontier and len(frontier) + len(leaves) < want:
        p = frontier.pop(0)
        c, _, _ = execute(model, p, bound, deep)
        if len(c.trace) == len(p):
            leaves.append(p)
            continue
        name, n, _ = c.trace[len(p)]
        st.states += 1
        st.transitions += n
        for i in range(n):
            frontier.append(list(c.trace[:len(p)]) + [(name, n, i)])
    return frontier + leaves, st


def fmt_exc(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}:{f.name}" for f in tb][-3:]
    return f"{type(err).__name__}: {err} @ {' < '.join(reversed(where))}"
