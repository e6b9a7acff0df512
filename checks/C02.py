"""Call histories and thread interleavings of the real parsers, against what each document gives in a fresh process."""
import builtins
import copy
import io
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import threading
from pathlib import Path

from mc.core import Divergence, Hang, Violation, fmt_exc
from checks import C01
from checks.C03 import same

ASSUMPTIONS = ["threads are switched where they read a line (line model) or enter a function of the package (entry model); finer switching is not explored",
               "the reference of a document is what parsing it gives in a process of its own"]
DIR = {}
REPO_PART = os.sep + "castep_outputs" + os.sep


def setup(deep):
    DIR["root"] = Path(tempfile.mkdtemp(prefix="mc-c02-"))
    calls = []
    for fmt, ds in C01.corpus(1).items():
        for label, content in ds:
            calls.append((fmt, label, content))
            if label == "runs" or fmt != "castep" and label == ds[0][0]:
                lines = content.splitlines(True) if isinstance(content, str) else [content[i:i + 7] for i in range(0, len(content), 7)]
                for k in (len(lines) // 3, 2 * len(lines) // 3, len(lines) - 1):
                    if 0 < k < len(lines):
                        calls.append((fmt, f"{label} cut after {k}", type(content)().join(lines[:k])))
            if fmt == "magres" and "[calculation]" in content:
                calls.append((fmt, f"{label} anonymous", re.sub(r"(?s)\[calculation\].*?\[/calculation\]\n", "", content)))
            if fmt in ("md", "geom", "ts") and "END header" in content:
                head, tail = re.split(r"(?<=END header)[^\n]*\n", content, maxsplit=1)
                calls.append((fmt, f"{label} headless", tail.lstrip("\n")))
                calls.append((fmt, f"{label} without blank line", head + "\n" + tail.lstrip("\n")))
    # castep sections with something behind them, for the interleavings
    base, after = len(calls), next(content for fmt, label, content in calls if label == "energies0")
    calls += [(fmt, f"{label} and energies", content + "\n\n" + after) for fmt, label, content in calls if fmt == "castep" and not label.startswith("runs")]
    DIR["calls"] = calls
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        DIR["ref"] = pool.map(_ref, range(len(calls)), chunksize=1)
        reached = pool.map(_reached, range(len(calls)), chunksize=1)
    ok = [r[0] == "data" for r in DIR["ref"]]
    # per format: the failing calls, and successful ones that between them reach every line of the package any of them reaches
    DIR["cover"] = {}
    for fmt in C01.FORMATS:
        mine = [i for i, x in enumerate(calls[:base]) if x[0] == fmt]
        left, chosen = set().union(*(reached[i] for i in mine)), []
        while left:
            best = max(mine, key=lambda i: (len(reached[i] & left), ok[i], -len(calls[i][2]), -i))
            chosen.append(best)
            left -= reached[best]
        DIR["cover"][fmt] = sorted({*chosen, *[i for i in mine if not ok[i]][:2]})
    DIR["tailed"] = {i: k for k in range(base, len(calls)) for i in range(base) if calls[k][0] == calls[i][0] and calls[k][1] == f"{calls[i][1]} and energies"}
    DIR["base"] = base
    DIR["fmt"] = {fmt: [i for i, x in enumerate(calls[:base]) if x[0] == fmt] for fmt in C01.FORMATS}
    DIR["few"] = sorted({i for fmt in C01.FORMATS for i in [j for j in DIR["cover"][fmt] if ok[j]][:2 if deep else 1]}
                        | {j for fmt in C01.FORMATS for j in [i for i in DIR["cover"][fmt] if not ok[i]][:1]}
                        | set(DIR["cover"]["castep"][:: 4 if deep else 12]))
    DIR["wide"] = sorted({i for fmt in C01.FORMATS for i in DIR["cover"][fmt]})


def _reached(i):
    fmt, _label, content = DIR["calls"][i]
    seen = set()

    def trace(frame, event, _arg):
        if REPO_PART not in frame.f_code.co_filename:
            return None
        if event == "line":
            seen.add((frame.f_code.co_filename, frame.f_lineno))
        return trace
    arg = C01.stream(content)
    sys.settrace(trace)
    try:
        call(fmt, arg)
    finally:
        sys.settrace(None)
    return seen


def teardown():
    shutil.rmtree(DIR["root"])


def _ref(i):
    fmt, _label, content = DIR["calls"][i]
    return call(fmt, C01.stream(content))


def call(fmt, arg, **kw):
    """Outcome of one call; errors are compared by type."""
    res = C01.outcome(C01.parser(C01.FORMATS[fmt]), arg, **kw)
    return res[:2]


def equal(a, b):
    return a[0] == b[0] and (same(a[1], b[1], True) and same(b[1], a[1], True) if a[0] == "data" else a[1] == b[1])


def mutables(obj, seen=None):
    seen = {} if seen is None else seen
    if isinstance(obj, (dict, list, set, bytearray)):
        if id(obj) in seen:
            return seen
        seen[id(obj)] = obj
    if isinstance(obj, dict):
        for k, v in obj.items():
            mutables(k, seen)
            mutables(v, seen)
    elif isinstance(obj, (list, tuple, set)):
        for v in obj:
            mutables(v, seen)
    return seen


def wipe(obj):
    for m in mutables(obj).values():
        if isinstance(m, dict):
            m.clear()
            m["spoilt"] = "spoilt"
        elif isinstance(m, list):
            m[:] = ["spoilt"]


def name(i):
    fmt, label, _ = DIR["calls"][i]
    return f"{fmt}:{label}"


def history(depth, pool):
    """All sequences of calls; `pool` gives the calls that may follow those made so far."""
    def model(c):
        done, results, made = [], [], []
        spoil = None
        for k in range(depth):
            i = c.pick(f"call{k}", pool(c, made))
            made.append(i)
            fmt, label, content = DIR["calls"][i]
            arg = C01.stream(content)
            got = call(fmt, arg)
            if arg.closed:
                raise Violation(f"{name(i)}: the handle of the caller was closed", {"history": done})
            arg.seek(0)
            if arg.read() != content:
                raise Violation(f"{name(i)}: the stream of the caller was changed")
            done.append(name(i))
            if not equal(got, DIR["ref"][i]):
                raise Violation(f"{name(i)} differs after {done[:-1]}", {"fresh": repr(DIR["ref"][i])[:3000], "now": repr(got)[:3000], "text": content})
            for j, (other, snap) in enumerate(results):
                if not equal(other, snap):
                    raise Violation(f"the result of {done[j]} changed while {name(i)} was parsed", {"was": repr(snap)[:3000], "is": repr(other)[:3000]})
                if got[0] == other[0] == "data" and spoil != j:
                    both = mutables(got[1]).keys() & mutables(other[1]).keys()
                    if both:
                        m = mutables(got[1])[next(iter(both))]
                        raise Violation(f"results of {done[j]} and {name(i)} share data", {"shared": repr(m)[:1000]})
            results.append((got, DIR["ref"][i]))
            if k == 0 and c.pick("spoil", (False, True)) and got[0] == "data":
                wipe(got[1])
                results[0] = (got, copy.deepcopy(got))
        return "histories"
    return model


def relatives(c, made):
    """First any call; then any call of the same format, and the wide choice of all formats where it was in that choice itself."""
    if not made:
        return range(DIR["base"])
    fmt = DIR["calls"][made[0]][0]
    if fmt == "castep" and not c.deep:
        same = sorted({*DIR["cover"][fmt], made[0]}) if made[0] not in DIR["cover"][fmt] else DIR["fmt"][fmt]
    else:
        same = DIR["fmt"][fmt]
    return sorted({*same, *(DIR["wide"] if c.deep and made[0] in DIR["wide"] else DIR["few"])})


def few(c, made):
    return DIR["few"]


def handles(c):
    """Open handles of every kind stay open and are not leaked."""
    i = c.pick("call", range(DIR["base"]))
    fmt, label, content = DIR["calls"][i]
    form = c.pick("form", ("open", "open-single", "path", "path-single"))
    from castep_outputs import parse_single
    d = Path(tempfile.mkdtemp(dir=DIR["root"]))
    try:
        p = d / f"x.{fmt}"
        p.write_bytes(content) if isinstance(content, bytes) else p.write_text(content, newline="")
        opened = p.open("rb" if isinstance(content, bytes) else "r") if form.startswith("open") else None
        before = set(os.listdir("/proc/self/fd"))
        # every file opened during the call is kept alive here, so that only the package itself can have closed it
        seen, real = [], io.open

        def watched(*args, **kw):
            seen.append(real(*args, **kw))
            return seen[-1]
        io.open = builtins.open = watched
        try:
            if form == "open":
                got = call(fmt, opened)
            elif form == "path":
                got = call(fmt, str(p))
            else:
                got = C01.outcome(parse_single, opened or p, fmt)[:2]
        finally:
            io.open = builtins.open = real
        left = set(os.listdir("/proc/self/fd"))
        still = [f for f in seen if not f.closed]
        for f in still:
            f.close()
        if opened and opened.closed:
            raise Violation(f"{name(i)} ({form}): the handle of the caller was closed", {"text": content})
        if not equal(got, DIR["ref"][i]):
            raise Violation(f"{name(i)} ({form}): {repr(got)[:300]}", {"fresh": repr(DIR["ref"][i])[:3000]})
        if still or form.startswith("path") and got[0] == "data" and len(left) > len(before):
            raise Violation(f"{name(i)} ({form}): the file opened for the call was not closed")
        if opened:
            # nothing may close it later either: the handle still reads
            opened.seek(0)
            if opened.read() != content:
                raise Violation(f"{name(i)} ({form}): the handle does not read the file any more")
            opened.close()
    finally:
        shutil.rmtree(d)
    return "open"


# ---------------------------------------------------------------- interleavings

class Killed(BaseException):
    pass


class Scheduler:
    """Runs one thread at a time; at every point the model decides who goes on."""

    def __init__(self, c):
        self.c = c
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.back = threading.Semaphore(0)
        self.alive = [True, True]
        self.out = [None, None]
        self.dead = False

    def point(self, me):
        if threading.current_thread() is not self.threads[me]:
            return
        self.back.release()
        self.turn[me].acquire()
        if self.dead:
            raise Killed

    def body(self, me, job):
        try:
            self.turn[me].acquire()
            if not self.dead:
                self.out[me] = job()
        except Killed:
            pass
        finally:
            self.alive[me] = False
            self.back.release()

    def run(self, jobs):
        self.threads = [threading.Thread(target=self.body, args=(i, job), daemon=True) for i, job in enumerate(jobs)]
        for t in self.threads:
            t.start()
        cur = self.c.pick("first", (0, 1))
        try:
            while any(self.alive):
                if all(self.alive):
                    cur = self.c.dev("switch", (cur, 1 - cur))
                elif not self.alive[cur]:
                    cur = 1 - cur
                self.turn[cur].release()
                self.back.acquire()
        finally:
            self.dead = True
            for s in self.turn:
                s.release()
        for t in self.threads:
            t.join()
        return self.out


def slow(base):
    class Slow(base):
        def __init__(self, content, point):
            super().__init__(content)
            self.point = point

        def readline(self, *args):
            self.point()
            return super().readline(*args)

        def read(self, *args):
            self.point()
            return super().read(*args)

        def __next__(self):
            self.point()
            return super().__next__()

        def __iter__(self):
            return self
    return Slow


SlowText, SlowBytes = slow(io.StringIO), slow(io.BytesIO)


def lines_twice(c):
    """Two preemptions between two parses of the same short document, or of a short one and its successor."""
    if not c.deep:
        return "in the thorough tier"
    return lines(c, 500)


def lines(c, most=None):
    """Two threads, switched at line reads."""
    a = c.pick("a", DIR["wide"])
    fmt = DIR["calls"][a][0]
    mine = DIR["cover"][fmt]
    b = c.pick("b", sorted({a, mine[(mine.index(a) + 1) % len(mine)], *(DIR["few"] if c.deep and a in DIR["few"] else ())}))
    a, b = DIR["tailed"].get(a, a), DIR["tailed"].get(b, b)
    if len(DIR["calls"][a][2]) + len(DIR["calls"][b][2]) > (most or (6000 if c.deep else 4000)):
        return "too long"
    s = Scheduler(c)

    def job(me, i):
        fmt, _label, content = DIR["calls"][i]
        make = SlowBytes if isinstance(content, bytes) else SlowText
        return lambda: call(fmt, make(content, lambda: s.point(me)))
    try:
        out = s.run([job(0, a), job(1, b)])
    except Divergence:
        raise Violation(f"{name(a)} and {name(b)}: the same schedule did not lead to the same reads twice") from None
    for i, got in zip((a, b), out):
        if got is None or not equal(got, DIR["ref"][i]):
            raise Violation(f"{name(i)} differs when {name(a)} and {name(b)} are parsed at the same time",
                            {"alone": repr(DIR["ref"][i])[:3000], "together": repr(got)[:3000]})
    return "interleaved"


def entries(c):
    """Another thread parses `b` while this one stands at the entry of a function (or of a generator step) of the package in the parse of `a`."""
    a = c.pick("a", DIR["wide"])
    fa = DIR["calls"][a][0]
    mine = DIR["cover"][fa]
    others = {a, mine[(mine.index(a) + 1) % len(mine)]}
    if c.deep:
        others |= {mine[(mine.index(a) + k) % len(mine)] for k in (2, 3)}
    b = c.pick("b", sorted(others))
    out = {}

    def other():
        fmt, _label, content = DIR["calls"][b]
        out["b"] = call(fmt, C01.stream(content))

    fmt, _label, content = DIR["calls"][a]
    # the number of entries is a property of the implementation, so the choice is a fraction of it
    key = ("entries", a)
    if key not in DIR:
        count = [0]

        def counter(frame, event, _arg):
            if event == "call" and REPO_PART in frame.f_code.co_filename:
                count[0] += 1
        call(fmt, C01.stream(content))
        sys.setprofile(counter)
        try:
            call(fmt, C01.stream(content))
        finally:
            sys.setprofile(None)
        DIR[key] = count[0]
    cap = 120 if c.deep else 60
    at = c.pick("entry", cap) * max(1, DIR[key] - 1) // max(1, min(cap, DIR[key]) - 1)
    seen = [0]

    def prof(frame, event, _arg):
        if event == "call" and REPO_PART in frame.f_code.co_filename:
            if seen[0] == at:
                seen[0] += 1
                t = threading.Thread(target=other, daemon=True)
                t.start()
                t.join()
                return
            seen[0] += 1
    sys.setprofile(prof)
    try:
        got = call(fmt, C01.stream(content))
    finally:
        sys.setprofile(None)
    for i, g in ((a, got), (b, out.get("b", DIR["ref"][b]))):
        if not equal(g, DIR["ref"][i]):
            raise Violation(f"{name(i)} differs when {name(b)} is parsed by another thread in the middle of {name(a)}",
                            {"alone": repr(DIR["ref"][i])[:3000], "together": repr(g)[:3000]})
    return "interleaved"


MODELS = [("pairs", history(2, relatives), 0, 0),
          ("triples", history(3, few), 0, 0),
          ("handles", handles, 0, 0),
          ("lines", lines, 1, 1),
          ("lines_twice", lines_twice, 0, 2),
          ("entries", entries, 0, 0)]
