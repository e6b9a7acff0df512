"""Development tool: make planted bugs from a spec, confirm them in a scratch copy, run checks against them.

python tools/seed.py make SPEC.py      build and confirm /verif/seeded/<id>
python tools/seed.py run [ID|Cxx ...]  run the quick check of each planted bug's property against it
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
V = Path("/verif"); REPO = Path("/repo"); PY = "/opt/venv/bin/python"

def sh(cmd, cwd, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr

def scratch(slot):
    d = Path(tempfile.gettempdir()) / f"seedwt-{slot}"
    if d.exists():
        shutil.rmtree(d)
    shutil.copytree(REPO, d, symlinks=True)
    return d

def demo(dir_, wt):
    return sh(["bash", str(dir_ / "demo.sh")], wt, {"PYTHONDONTWRITEBYTECODE": "1"}, 300)

def make(spec):
    ns = {}
    exec(Path(spec).read_text(), ns)
    def one(args):
        i, b = args
        wt = scratch(f"m{os.getpid()}-{i}")
        try:
            sh("git checkout -q -- . ; git clean -fdq", wt)
            d = V / "seeded" / b["id"]
            if d.exists() and not b.get("force"):
                return b["id"], "exists"
            files = {}
            for f, old, new in b["edits"]:
                p = wt / "castep_outputs" / f
                s = files.get(p) or p.read_text()
                if s.count(old) != 1:
                    return b["id"], f"FAIL: {s.count(old)} occurrences of {old!r}"
                files[p] = s.replace(old, new)
            tmp = Path(tempfile.mkdtemp())
            (tmp / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport logging\nlogging.disable(logging.CRITICAL)\n" + textwrap.dedent(b["demo"]).lstrip("\n"))
            (tmp / "demo.sh").write_text('#!/bin/bash\n# Run in the repository: exit 0 when the property holds on this case.\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            rc, out = demo(tmp, wt)
            if rc:
                return b["id"], "FAIL: demo fails on clean tree\n" + out.strip()[-200:]
            for p, s in files.items():
                p.write_text(s)
            rc, out = demo(tmp, wt)
            if not rc:
                return b["id"], "FAIL: demo passes with bug"
            last = out.strip().splitlines()[-1] if out.strip() else ""
            rc, out = sh([PY, "-m", "pytest", "-q", "-x", "test", "-p", "no:cacheprovider"], wt)
            if rc:
                return b["id"], "FAIL: tests fail\n" + out.strip()[-200:]
            rc, patch = sh("git diff", wt)
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(patch)
            for f in tmp.iterdir():
                shutil.copy(f, d / f.name)
            (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            return b["id"], "ok: " + last[:150]
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, enumerate(ns["BUGS"])):
            print(i, r, flush=True)

def run(ids):
    caught = {}
    want = [d for d in sorted((V / "seeded").iterdir()) if not ids or d.name in ids or json.loads((d / "meta.json").read_text())["property"] in ids or any(i.endswith("*") and d.name.startswith(i[:-1]) for i in ids)]
    wt = scratch(f"r{os.getpid()}")
    try:
        for d in want:
            prop = json.loads((d / "meta.json").read_text())["property"]
            sh("git checkout -q -- .", wt)
            rc, out = sh(["git", "apply", str(d / "patch.diff")], wt)
            if rc:
                print(d.name, "DOES NOT APPLY", out); continue
            rc, out = sh(["./check", prop, "quick"], V, {"CASTEP_REPO": str(wt)})
            vs = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            hit = rc == 1 and vs
            caught[d.name] = bool(hit)
            msg = out.split("VIOLATION", 1)[1].splitlines()[1:2] if vs else out.strip().splitlines()[-1:]
            print(("CAUGHT " if hit else "MISSED "), d.name, prop, "rc", rc, (msg or [""])[0][:220], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    print(sum(caught.values()), "of", len(caught))

if __name__ == "__main__":
    make(sys.argv[2]) if sys.argv[1] == "make" else run(sys.argv[2:])
