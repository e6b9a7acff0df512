"""Data-shaping helpers against reference functions, on every small nested value."""
import copy
import re
from collections import defaultdict

from mc.core import Violation

ASSUMPTIONS = ["keys do not contain the separator, and string keys are not the digits of a list index, so that paths are unique",
               "atom names are a species with an optional tag after a colon and an optional bracketed label"]

LEAVES = (0, "x", None, 1.5, 1 + 2j, True, "")


def value(c, depth, seen, width=2):
    """Nested dicts, lists, tuples to a depth; the first leaf is of every kind, the others are distinct."""
    kind = c.pick(f"k{depth}", ("leaf", "dict", "list", "tuple", "defaultdict") if depth else ("leaf",))
    if kind == "leaf":
        seen.append(0)
        return c.pick("leaf", LEAVES) if len(seen) == 1 else f"v{len(seen)}"
    n = c.pick("n", range(width + 1))
    items = [value(c, depth - 1, seen, width) for _ in range(n)]
    if kind == "list":
        return items
    if kind == "tuple":
        return tuple(items)
    k = c.pick("keys", (("a", "b", "c"), (7, 0, "x"), (None, ("Si", 1), 3))) if n else ()
    d = dict(zip(k, items))
    return defaultdict(list, d) if kind == "defaultdict" else d


def top(c):
    n = c.pick("top", (1, 2))
    keys = c.pick("topkeys", (("a", "b"), (0, "b"), (None, 7), (("Si", 1), "a")))
    seen = []
    return {k: value(c, 2 if i == 0 else int(c.deep), seen) for i, k in enumerate(keys[:n])}


def leaves(obj, path=()):
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield from leaves(v, (*path, k))
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            yield from leaves(v, (*path, i))
    else:
        yield path, obj


def flatten(c):
    """One entry per leaf, under its path."""
    from castep_outputs.utilities.utility import flatten_dict
    data = top(c)
    before = copy.deepcopy(data)
    sep, parent = c.pick("options", ((None, None), (".", None), (None, "run"), ("::", "run"), ("", None), ("", "run")))
    kw = ({"separator": sep} if sep is not None else {}) | ({"parent_key": parent} if parent else {})
    got = flatten_dict(data, **kw)
    want = {}
    for path, leaf in leaves(data):
        path = ((parent,) if parent else ()) + path
        key = path[0] if len(path) == 1 else ("_" if sep is None else sep).join(map(str, path))
        if key in want:
            return "ambiguous"
        want[key] = leaf
    if list(got.items()) != list(want.items()):
        raise Violation(f"flatten_dict({data!r}, {kw}) = {got!r}, expected {want!r}")
    if repr(data) != repr(before):
        raise Violation(f"flatten_dict changed its input {before!r}")
    return f"{len(want)}"


def reference(obj, mapping):
    if isinstance(obj, dict):
        obj = {k: reference(v, mapping) for k, v in obj.items()}
    elif isinstance(obj, (list, tuple)):
        obj = tuple(reference(v, mapping) for v in obj)
    for t, fn in mapping.items():
        if type(obj) is t:
            return fn(obj)
    return obj


def standardise(c):
    """normalise: lists become tuples, dicts plain, mapped types mapped, at every depth; input unchanged."""
    from castep_outputs.utilities.utility import normalise
    data = value(c, 2, [], 3 if c.deep else 2)
    mapping = c.pick("map", ({}, {tuple: list}, {complex: str}, {dict: lambda d: tuple(d.items())}, {float: int, str: str.upper, bool: int}))
    before = repr(data)
    got, want = normalise(data, dict(mapping)), reference(data, mapping)
    if repr(got) != repr(want):
        raise Violation(f"normalise({before}, {mapping}) = {got!r}, expected {want!r}")
    if repr(data) != before:
        raise Violation(f"normalise changed its input {before}")
    return "ok"


def stack(c):
    """Stacked records keep every value in order under its key."""
    from castep_outputs.utilities.utility import stack_dict
    n = c.pick("records", range(4))
    recs = [{k: v for k in ("a", "b", ("Si", 1)) if (v := c.pick(f"{i}{k}", ("absent", 1, None, [2]))) != "absent"} for i in range(n)]
    out = defaultdict(list)
    before = repr(recs)
    for r in recs:
        stack_dict(out, r)
    want = {}
    for r in recs:
        for k, v in r.items():
            want.setdefault(k, []).append(v)
    if dict(out) != want or repr(recs) != before:
        raise Violation(f"stacking {before} gives {dict(out)!r}, expected {want!r}")
    return "ok"


def aliases(c):
    """Aliases keep every value, the original unless replaced, and a copy unless in place."""
    from castep_outputs.utilities.utility import add_aliases
    made = c.pick("values", (lambda k: [k], lambda k: 0, lambda k: None, lambda k: "", lambda k: [], lambda k: {"in": k}))
    data = {k: made(k) for k in ("a", "b", "c") if c.flag(f"has {k}")}
    names = [f for f in ("a", "b", "d") if c.flag(f"alias {f}")]
    alias = {f: f"{f}_new" for f in names}
    kw = {k: c.flag(k) for k in ("replace", "inplace") if c.flag(f"give {k}")}
    src, given = dict(data), dict(alias)
    got = add_aliases(src, alias, **kw)
    want = dict(data)
    for f in names:
        if f in data:
            want[f"{f}_new"] = data[f]
            if kw.get("replace"):
                del want[f]
    if got != want or any(got[f"{f}_new"] is not data[f] for f in names if f in data):
        raise Violation(f"add_aliases({data}, {alias}, {kw}) = {got}, expected {want}")
    inplace = kw.get("inplace", True)
    if (src != want if inplace else src != data) or (got is src) is not inplace or alias != given:
        raise Violation(f"add_aliases({data}, {alias}, {kw}) left {src}")
    return "ok"


def keys(c):
    """Keys: one underscore per run of punctuation, lower case, no letter or digit lost; text: single blanks."""
    from castep_outputs.utilities.utility import normalise_key, normalise_string
    s = ""
    for i in range(7 if c.deep else 5):
        ch = c.pick(f"c{i}", ("a", "B", "7", " ", "_", "-", ".", "\t", "\n", "\u00e9", None))
        if ch is None:
            break
        s += ch
    words, cur = [], ""
    for ch in s + " ":
        if ch.isalnum():
            cur += ch.lower()
        elif cur:
            words.append(cur)
            cur = ""
    got = normalise_key(s)
    if got != "_".join(words) or normalise_key(got) != got:
        raise Violation(f"normalise_key({s!r}) = {got!r}, expected {'_'.join(words)!r}")
    blanks = "".join(" " if ch in " \t\n" else ch for ch in s)
    want = " ".join(w for w in blanks.split(" ") if w)
    if normalise_string(s) != want:
        raise Violation(f"normalise_string({s!r}) = {normalise_string(s)!r}, expected {want!r}")
    return "ok"


def nones(c):
    """Only the selected absent values go."""
    from castep_outputs.utilities.utility import strip_nones
    data = {k: v for k in ("a", "b", "c", 3) if (v := c.pick(f"{k}", ("absent", None, 0, ""))) != "absent"}
    include = c.pick("include", ("unset", None, (), ("a", "b"), ("a", "zzz"), [3]))
    exclude = c.pick("exclude", ("unset", (), ("a",), ["b", 3]))
    kw = ({} if include == "unset" else {"include": include}) | ({} if exclude == "unset" else {"exclude": exclude})
    inc = include if include not in ("unset", None) else data
    exc = exclude if exclude != "unset" else ()
    want = {k: v for k, v in data.items() if not (v is None and k in inc and k not in exc)}
    src = dict(data)
    strip_nones(src, **kw)
    if src != want or list(src) != list(want):
        raise Violation(f"strip_nones({data}, {kw}) left {src}, expected {want}")
    return "ok"


SPECIES = ("H", "Si", "Uuo")
TAGS = (None, "a", "tag", "1", "H2_x", "Ab")
LABELS = (None, "x", "lab el", "Si", "a-b.1", "1")


def atoms(c):
    """Atom names split into their parts, and labels with indices, without loss."""
    from castep_outputs.utilities.castep_res import ATOM_RE, get_atom_parts
    from castep_outputs.utilities.utility import atreg_to_index
    sp, tag, lab = c.pick("species", SPECIES), c.pick("tag", TAGS), c.pick("label", LABELS)
    gap = c.pick("gap", ("", " ", "   ")) if lab else ""
    inner = c.pick("inner", ("{}", " {} ")) if lab else "{}"
    name = sp + (f":{tag}" if tag else "") + (f"{gap}[{inner.format(lab)}]" if lab else "")
    want = {"species": sp} | ({"tag": tag} if tag else {}) | ({"label": lab} if lab else {})
    got = get_atom_parts(name)
    if got != want:
        raise Violation(f"parts of {name!r}: {got}, expected {want}")
    idx = c.pick("index", ("1", "12", "007", "1234567"))
    line = c.pick("pre", ("", "  ", "| ")) + name + c.pick("blank", (" ", "     ")) + idx + c.pick("post", ("", "  1.5", " |"))
    m = re.search(ATOM_RE, line)
    if m is None or atreg_to_index(m) != (name, int(idx)):
        raise Violation(f"atom of {line!r}: {m and atreg_to_index(m)}, expected {(name, int(idx))}")
    d = {"spec": name, "index": idx, "x": "1"}
    keep = c.pick("clear", (None, True, False))
    res = atreg_to_index(d) if keep is None else atreg_to_index(d, clear=keep)
    if res != (name, int(idx)) or d != ({"spec": name, "index": idx, "x": "1"} if keep is False else {"x": "1"}):
        raise Violation(f"atreg_to_index gives {res}, leaves {d}")
    return "ok"


def label(c):
    """Atom labels built from a name."""
    from castep_outputs.processing.processing import AtomLabel
    name = c.pick("species", SPECIES) + c.pick("tag", ("", ":a")) + c.pick("label", ("", " [x]"))
    try:
        got = AtomLabel.from_str(name)
    except TypeError as err:
        raise Violation(f"AtomLabel.from_str({name!r}) raises {err}", finding="C34-atomlabel-from-str") from None
    if got.species != name.split(":")[0].split(" ")[0] or got.tag != ("a" if ":a" in name else "") or got.label != ("x" if "[" in name else ""):
        raise Violation(f"AtomLabel.from_str({name!r}) = {got}")
    return "ok"


def small(c):
    """Sole elements and underscored keys."""
    from castep_outputs.utilities.utility import filter_underscore, get_only
    seq = [c.pick(f"e{i}", (None, 0, "x")) for i in range(c.pick("n", range(4)))]
    seq = c.pick("as", (list, tuple, iter, dict.fromkeys))(seq)
    n = len(list(seq)) if not hasattr(seq, "__next__") else None
    if n is None:
        items = list(seq)
        seq, n, first = iter(items), len(items), items[:1]
    else:
        first = list(seq)[:1]
    try:
        got = get_only(seq)
    except ValueError:
        if n == 1:
            raise Violation(f"sole element of {seq!r} refused") from None
    else:
        if n != 1 or got != first[0]:
            raise Violation(f"get_only of {n} elements gives {got!r}")
    data = {k: 1 for k in ("_a", "a_", "b", "__", "a_b") if c.flag(k)}
    if filter_underscore(data) != {k: v for k, v in data.items() if k[0] != "_"}:
        raise Violation(f"filter_underscore({data}) = {filter_underscore(data)}")
    return "ok"


MODELS = [(f.__name__, f, 0, 0) for f in (flatten, standardise, stack, aliases, keys, nones, atoms, label, small)]
