"""Navigation histories on unformatted record files against an index model."""
import io
import os
import shutil
import struct
import tempfile

from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader

from mc.core import Violation
from mc.compare import canon

DIR = None


def setup(deep):
    global DIR
    DIR = tempfile.mkdtemp(prefix="mcC07")


def teardown():
    shutil.rmtree(DIR, ignore_errors=True)


def enc(v):
    if isinstance(v, bool):
        return struct.pack(">i", v)
    if isinstance(v, int):
        return struct.pack(">i", v)
    if isinstance(v, float):
        return struct.pack(">d", v)
    if isinstance(v, complex):
        return struct.pack(">2d", v.real, v.imag)
    if isinstance(v, str):
        return v.encode()
    return b"".join(map(enc, v))


# (dtype, value) of every record
FILES = {
    "empty": [],
    "one": [(int, 7)],
    "mixed": [(int, 2), ((float, ...), (1.5, -2.0, 1e-300)), (str, "ATOM"), ((int, ...), ()), ((complex, ...), (1 + 2j, -0.0 - 1j))],
    "same": [(int, 8), (int, 8), ((int, ...), (4, 4)), (int, 4)],
    "eight": [(int, i * 11) if i % 3 else ((float, ...), (i / 4.0,) * i) for i in range(8)],
    "long": [((int, ...), tuple(range(300))), (float, 3.25), (str, "x" * 260), ((bool, ...), (True, False, True)), (int, -1), (float, -0.0)],
}


def raw(recs):
    out = b""
    for _, v in recs:
        d = enc(v)
        n = struct.pack(">i", len(d))
        out += n + d + n
    return out


OPS = [("next",), ("get",), ("skip", 1), ("rewind", 1), ("skip", 2), ("rewind", 2), ("skip", -1), ("rewind", 3), ("rewind", 1, "default"), ("skip", 0), ("iter2",), ("dict2",),
       ("cycle",), ("cycled",), ("all",)]
TYPE_OF_ALL = {int: (int, ...), float: (float, ...), str: str}


class End(Exception):
    """The model ran off an end."""


class Ref:
    def __init__(self, recs):
        self.recs, self.i = recs, 0

    def take(self):
        if self.i >= len(self.recs):
            raise End("end")
        self.i += 1
        return self.recs[self.i - 1]

    def move(self, n):
        if not 0 <= self.i + n <= len(self.recs):
            self.i = max(0, min(len(self.recs), self.i + n))
            raise End("move")
        self.i += n


def bits(v):
    """Exact comparison, signed zeros included."""
    return repr(canon(v)).replace("(", "[").replace(")", "]")


def want(what, got, exp):
    if bits(got) != bits(exp):
        raise Violation(f"{what}: got {got!r}, stored {exp!r}")


def step(op, reader, ref):
    kind = op[0]
    nxt = [r[0] for r in ref.recs[ref.i:ref.i + 2]]
    if kind == "next":
        got = next(reader)
        want("next", got, enc(ref.take()[1]))
    elif kind == "get":
        typ = nxt[0] if nxt else int
        got = reader.get(typ)
        want(f"get {typ}", got, ref.take()[1])
    elif kind in ("skip", "rewind"):
        n, args = op[1] if kind == "skip" else -op[1], op[1:2] if len(op) == 2 else ()  # ("rewind", 1, "default"): one record if not told
        try:
            ref.move(n)
        except End:
            getattr(reader, kind)(*args)
            raise
        getattr(reader, kind)(*args)
    elif kind == "iter2":
        types = nxt + [int] * (2 - len(nxt))
        it = reader.get_dtype_iter(types)
        for typ in types:
            got = next(it)
            want(f"iter {typ}", got, ref.take()[1])
    elif kind == "dict2":
        # fewer records than keys: either refused or the keys that are there
        types = dict(zip("ab", nxt + [int] * (2 - len(nxt))))
        got = reader.get_dtype_dict(types)
        want("dict", got, {k: ref.take()[1] for k in list(types)[:len(nxt)]})
    elif kind in ("cycle", "cycled"):
        # as many complete cycles as the next records allow
        types = nxt if len(nxt) == 2 else [int]
        n = 0
        while [r[0] for r in ref.recs[ref.i + n * len(types):][:len(types)]] == types and n < 2:
            n += 1
        if kind == "cycle":
            got = list(reader.get_dtype_cycle(tuple(types), n=n))
            want("cycle", got, [[ref.take()[1] for _ in types] for _ in range(n)])
        else:
            keys = [f"k{i}" for i in range(len(types))]
            got = list(reader.get_dtype_cycle(dict(zip(keys, types)), n=n))
            want("cycle", got, [{k: ref.take()[1] for k in keys} for _ in range(n)])
    elif kind == "all":
        got = list(reader)
        want("iteration", got, [enc(v) for _, v in ref.recs[ref.i:]])
        ref.i = len(ref.recs)


def history(c):
    """All operation sequences, in memory and on disk."""
    name = c.pick("file", [n for n in FILES if n != "eight"])
    recs = FILES[name]
    data = raw(recs)
    where = c.pick("medium", ("memory", "disk"))
    if where == "memory":
        fh = io.BytesIO(data)
    else:
        path = os.path.join(DIR, f"{name}.{os.getpid()}")
        if not os.path.exists(path):
            with open(path, "wb") as out:
                out.write(data)
        fh = open(path, "rb")
    with fh:
        reader, ref, done = FortranBinaryReader(fh), Ref(recs), []
        depth = (5 if c.deep else 4) if where == "memory" else 3
        for i in range(depth):
            op = c.pick(f"op{i}", OPS)
            done.append(op)
            before = ref.i
            try:
                try:
                    step(op, reader, ref)
                except End:
                    raise Violation(f"running off the {'end' if ref.i else 'start'} is not signalled") from None
            except Violation as v:
                raise Violation(f"after {done}: {v.message}", {"file": name, "history": done}) from None
            except (StopIteration, RuntimeError, EOFError, OSError, ValueError, IndexError) as err:
                if not _runs_off(op, recs, before):
                    raise Violation(f"after {done}: records are there but {type(err).__name__}: {err}", {"file": name, "history": done}) from None
                # position after a signalled error is not specified, but nothing that is no record may come out
                try:
                    got = next(reader)
                except (StopIteration, EOFError, OSError, ValueError):
                    return "ran off"
                if got not in [enc(v) for _, v in recs]:
                    raise Violation(f"after {done}: next gives {got!r}, which is no record", {"file": name, "history": done}) from None
                return "ran off"
    return "inside"


def jumps(c):
    """Every sequence of jumps of any length on eight records; the record reached is read."""
    recs = FILES["eight"]
    reader, i, done = FortranBinaryReader(io.BytesIO(raw(recs))), 0, []
    for k in range(4 if c.deep else 3):
        n = c.pick(f"by{k}", range(-i, len(recs) - i + 1))
        how = c.pick(f"how{k}", ("skip", "rewind"))
        done.append((how, n if how == "skip" else -n))
        try:
            getattr(reader, how)(done[-1][1])
        except Exception as err:
            raise Violation(f"after {done}: {type(err).__name__} {err}", {"history": done}) from None
        i += n
        if i < len(recs) and c.pick(f"read{k}", (True, False)):
            done.append("get")
            want(f"after {done}", reader.get(recs[i][0]), recs[i][1])
            i += 1
    want(f"rest after {done}", list(reader), [enc(v) for _, v in recs[i:]])


def _runs_off(op, recs, i):
    left = len(recs) - i
    kind = op[0]
    if kind in ("next", "get"):
        return left < 1
    if kind == "skip":
        return not 0 <= i + op[1] <= len(recs)
    if kind == "rewind":
        return op[1] > i
    if kind in ("iter2", "dict2"):
        return left < 2
    return False


def truncated(c):
    """Cut at every byte: complete records are read, then the end is signalled."""
    name = c.pick("file", ("one", "mixed", "same"))
    recs = FILES[name]
    data = raw(recs)
    cut = c.pick("cut", range(len(data) + 1))
    whole, pos = [], 0
    for _, v in recs:
        pos += len(enc(v)) + 8
        if pos <= cut:
            whole.append(enc(v))
    got = []
    try:
        for rec in FortranBinaryReader(io.BytesIO(data[:cut])):
            got.append(rec)
    except (EOFError, ValueError, OSError, struct.error):
        pass
    if got != whole:
        raise Violation(f"cut at byte {cut} of {len(data)}: read {got!r}, complete records are {whole!r}", {"file": name})


class Raw(int):
    """A logical as the file stores it; compilers differ in how .true. is stored (1 or -1)."""


VALS = {int: [0, 1, -1, 2 ** 31 - 1, -2 ** 31, 16909060], float: [0.0, -0.0, 1.5, -1e-308, 5e-324, 1.7976931348623157e308, 0.1],
        complex: [0j, 1 + 2j, -0.0 + 0j, 1e300 - 1e-300j], bool: [True, False, Raw(-1)], str: ["", "A", "Hello  ", "x y"]}


def decode(c):
    """Every element type alone and in arrays."""
    typ = c.pick("type", list(VALS))
    n = c.pick("n", range(0, 4))
    if typ is str:
        v = c.pick("v", VALS[str])
        rec = (str, v)
        form = c.pick("form", ("one", "many"))
        rec = (str, v) if form == "one" else ((str, ...), (v,))
    else:
        vals = tuple(c.pick(f"v{i}", VALS[typ]) for i in range(n))
        rec = (typ, vals[0]) if n == 1 and c.flag("scalar") else ((typ, ...), vals)
        if n > 1 and c.flag("scalar of many"):
            try:
                got = FortranBinaryReader(io.BytesIO(raw([rec]))).get(typ)
            except ValueError:
                return "refused"
            raise Violation(f"{n} elements read as one {typ}: {got!r}")
    reader = FortranBinaryReader(io.BytesIO(raw([(int, 5), rec, (int, 6)])))
    want("before", reader.get(int), 5)
    stored = (tuple(map(bool, rec[1])) if isinstance(rec[1], tuple) else bool(rec[1])) if typ is bool else rec[1]
    want(f"{rec[0]}", reader.get(rec[0]), stored)
    want("after", reader.get(int), 6)


MODELS = [("history", history, 0, 0), ("jumps", jumps, 0, 0), ("truncated", truncated, 0, 0), ("decode", decode, 0, 0)]
