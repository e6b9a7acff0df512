"""Development tool: rewrite section 5 of DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
MISSED = {"c22-0k-elsewhere": "text that is an abridged heading is not claimed to be without effect", "c22-title-tail": "likewise"}
rows = {}
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.setdefault(m["property"], []).append((d.name, m["needs"], m["what_it_breaks"]))
out = ["## 5. Planted bugs", "",
       "Every bug below passes the repository's tests and fails its own demonstration. Each was written from a property's statement and the code;",
       "the check of its property catches it (exit 1), most on the first run, the others after the models were widened (the alphabets",
       "and shapes they brought in are part of the table of section 2), except where *not caught* stands.", ""]
for p in sorted(rows):
    for i, n, b in rows[p]:
        out.append(f"* `{i}` ({p}): {n} — {b}" + (f" — *not caught*: {MISSED[i]}" if i in MISSED else f" — caught by {p}"))
s = (V / "DESIGN.md").read_text()
tail = ""
if "\n## 5. Planted bugs" in s:
    s, rest = s.split("\n## 5. Planted bugs", 1)
    if "\n## 6." in rest:
        tail = "\n## 6." + rest.split("\n## 6.", 1)[1]
(V / "DESIGN.md").write_text(s.rstrip() + "\n\n" + "\n".join(out) + "\n" + tail)
print(sum(map(len, rows.values())), "planted bugs")
