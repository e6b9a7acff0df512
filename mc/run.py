"""Runs the check of one property: explore every model, write evidence, print verdict."""
from __future__ import annotations

import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import sys
import time
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("CASTEP_REPO", "/repo"))
sys.path[:0] = [str(REPO), str(VERIF)]
sys.dont_write_bytecode = True

from mc import core  # noqa: E402

NPROC = int(os.environ.get("MC_PROCS", "8"))
_MODELS = {}


def _work(job):
    name, bound, deep, prefixes = job
    fn = _MODELS[name]
    st, viols = core.Stats(), []
    for p in prefixes:
        s, v = core.explore(fn, bound, deep, p)
        st.merge(s)
        viols += [(t, u, x.message, x.detail, x.finding) for t, u, x in v]
    return name, st, viols


def _plain(obj):
    """Something json can write, whatever the implementation returned."""
    if isinstance(obj, dict):
        return {str(k): _plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_plain(v) for v in obj]
    return obj if isinstance(obj, (str, int, float, bool, type(None))) and type(obj).__module__ == "builtins" else str(obj)


def _sample(name, fn, bound, deep):
    c, res, viol = core.execute(fn, (), bound, deep)
    return {"model": name, "choices": [f"{n}={i}" for n, _, i in c.trace][:40],
            "outcome": "violation" if viol else str(res if res is not None else "ok")[:300]}


def main(prop, tier):
    t0 = time.time()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    deep = tier == "thorough"
    mod = importlib.import_module(f"checks.{prop}")
    import castep_outputs
    assert Path(castep_outputs.__file__).resolve().is_relative_to(REPO.resolve()), castep_outputs.__file__
    only = os.environ.get("MC_ONLY")
    models = [m for m in mod.MODELS if not only or (only == m[0] if os.environ.get("MC_EXACT") else only in m[0])]
    # development: lower every bound; stop at the first violation
    cap, first = int(os.environ.get("MC_BOUND", "99")), bool(os.environ.get("MC_FIRST"))
    models = [(name, fn, min(bq, cap), min(bt, cap)) for name, fn, bq, bt in models]
    ctx = mp.get_context("fork")
    jobs, per = [], {}
    total = core.Stats()
    for name, fn, bq, bt in models:
        _MODELS[name] = fn
    if hasattr(mod, "setup"):
        mod.setup(deep)
    try:
        with ctx.Pool(NPROC) as pool:
            splits = pool.starmap(_split, [(name, bt if deep else bq, deep) for name, fn, bq, bt in models], chunksize=1)
            for (name, fn, bq, bt), (prefixes, st) in zip(models, splits):
                per[name] = {"bound": bt if deep else bq, "st": st, "viols": []}
                bound = bt if deep else bq
                k = max(1, len(prefixes) // 48)
                jobs += [(name, bound, deep, prefixes[i:i + k]) for i in range(0, len(prefixes), k)]
            for name, st, viols in pool.imap_unordered(_work, jobs):
                per[name]["st"].merge(st)
                per[name]["viols"] += viols
                if first and any(not v[4] for v in viols):
                    break
    except core.Divergence as err:
        print(f"ERROR: model diverged on replay: {err}")
        return 2
    known = json.loads((VERIF / "known_findings.json").read_text())["findings"]
    known = {k["id"]: k for k in known if k["property"] == prop}
    found, bad = {}, []
    samples = []
    pm = {}
    for name, fn, *_ in models:
        d = per[name]
        st = d["st"]
        total.merge(st)
        pm[name] = {"states": st.states, "transitions": st.transitions, "executions": st.traces,
                    "deviation_bound": d["bound"], "max_choice_depth": st.max_depth, "outcomes": st.outcomes}
        if len(samples) < 6:
            samples.append(_sample(name, fn, d["bound"], deep))
        for t, u, msg, det, finding in d["viols"]:
            if finding in known:
                found.setdefault(finding, []).append((name, t, u, msg))
            else:
                bad.append((u, len(t), name, t, msg, det))
        if os.environ.get("MC_VERBOSE"):
            print(f"  {name}: {pm[name]} viol={len(d['viols'])}")
    if hasattr(mod, "teardown"):
        mod.teardown()
    for m in getattr(mod, "notes", lambda: [])():
        print(m)
    cov = {"states": total.states, "transitions": total.transitions,
           "traces_validated_against_impl": total.traces, "samples": samples, "exhaustive": cap == 99 and not (first and bad),
           "per_model": pm}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "completeness is relative to the alphabets and bounds of the models listed in per_model"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for fid in sorted(found):
        print(f"KNOWN-FINDING: property={prop} {known[fid]['what']} ({len(found[fid])} executions, id {fid})")
    rc = 0
    if bad:
        rc = 1
        bad.sort(key=lambda b: b[:2])
        seen = {}
        for u, _n, name, t, msg, det in bad:
            if name in seen or len(seen) >= 3:
                continue
            h = hashlib.sha1(repr((name, t)).encode()).hexdigest()[:10]
            rp = VERIF / "evidence" / "replay" / f"{prop}-{h}.json"
            rp.parent.mkdir(exist_ok=True)
            rp.write_text(json.dumps({"property": prop, "model": name, "deviations": u,
                                      "bound": per[name]["bound"], "deep": deep,
                                      "trace": t, "message": msg, "detail": _plain(det)}, indent=1, default=str))
            seen[name] = rp
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"   [{name}] {msg[:600]}")
    print(f"{prop} {tier}: {total.states} states, {total.transitions} transitions, {total.traces} executions, "
          f"{len(models)} models, {len(bad)} violations, {time.time() - t0:.1f}s")
    return rc


def _split(name, bound, deep):
    return core.split(_MODELS[name], bound, deep, 160 if deep else 48)


def replay(path):
    """Re-run one recorded execution and show it."""
    d = json.loads(Path(path).read_text())
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"checks.{d['property']}")
    fn = {m[0]: m[1] for m in mod.MODELS}[d["model"]]
    if hasattr(mod, "setup"):
        mod.setup(d["deep"])
    outs = []
    for _ in range(2):
        c, res, viol = core.execute(fn, [tuple(x) for x in d["trace"]], d["bound"], d["deep"])
        outs.append(viol.message if viol else None)
    print("deterministic:", outs[0] == outs[1])
    print(outs[0] or "no violation")
    if viol:
        for k, v in viol.detail.items():
            print(f"--- {k}\n{v}")
    return 1 if outs[0] else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
