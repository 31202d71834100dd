"""Writes known_findings.json; the 'fixed' entries come from the fix: commits of /repo, the 'known' ones from KNOWN below."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PROP = json.loads((V / "tools/fix_props.json").read_text())  # subject -> property
KNOWN = json.loads((V / "tools/known.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = list(KNOWN)
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        what = s[5:]
        prop = PROP[what]
        out.append({"property": prop, "status": "fixed", "commit": h, "what": what, "entry": f"fixed: property={prop} {h} {what}"})
(V / "known_findings.json").write_text(json.dumps({"findings": out}, indent=1) + "\n")
