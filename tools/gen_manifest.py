"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, pathlib, importlib.util, re
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
TECH = {
    "hist": "explicit enumeration of all bounded operation histories of the real object against a reference model (stateless model checking)",
    "writer": "bounded exhaustive enumeration of a nondeterministic writer model of the format; every complete model trace is replayed on the real parser (stateless model checking)",
    "sched": "stateless model checking of the real code: all call histories and all thread interleavings at line-read granularity up to a preemption bound",
    "conf": "bounded exhaustive enumeration of configurations against a reference model, each run on the real code (stateless model checking)",
    "comp": "bounded exhaustive enumeration of section compositions / cut points, each run on the real parser against a compositional reference (stateless model checking)",
}
KIND = {"C01": "conf", "C02": "sched", "C03": "conf", "C04": "conf", "C05": "hist", "C06": "hist", "C07": "hist", "C08": "hist",
        "C20": "comp", "C21": "comp", "C22": "comp", "C23": "comp", "C32": "conf", "C33": "conf", "C34": "conf"}
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "checks" / f"{i}.py"
    if not f.exists():
        na.append({"property": i, "reason": "check not built yet"})
        continue
    k = KIND.get(i, "writer")
    models = re.findall(r"\(\"([\w-]+)\", \w+, (\d+), (\d+)\)", f.read_text())
    checks.append({
        "property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
        "technique": TECH[k], "level": "model_checking",
        "level_note": "Complete within the alphabets and bounds of the models in checks/%s.py (see DESIGN.md and the per_model counts in the evidence); "
                      "assumes values outside the alphabets behave like those inside, and trusts the reference model in that file." % i})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path[:0]=['/repo','.']; import mc.core, mc.gen, castep_outputs\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every check drives public entry points. known_findings.json lists recorded defects."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
