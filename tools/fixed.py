"""fixed.py PROP COMMIT TEXT: record a repaired defect in known_findings.json"""
import json
import sys
from pathlib import Path
f = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text())
p, c, t = sys.argv[1:]
line = f"fixed: property={p} {c} {t}"
if line not in d["fixed"]:
    d["fixed"].append(line)
f.write_text(json.dumps(d, indent=1) + "\n")
