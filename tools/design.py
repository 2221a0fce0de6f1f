"""Writes DESIGN.md from its parts: design_head.md, design_props.md, known_findings.json and the seeded bugs."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parents[1]
T = ROOT / "tools"
out = [(T / "design_head.md").read_text().rstrip(), "", (T / "design_props.md").read_text().rstrip(), ""]
known = json.loads((ROOT / "known_findings.json").read_text())
out += ["## 3. Genuine defects found", "",
        f"{len(known['fixed'])} defects were found by the checks (or while writing the monitors) on the original tree and repaired, each in its own `fix:` commit;",
        "each entry is a behaviour the check reports again if it returns. "
        + ("No defect is left open: `findings` is empty." if not known["findings"] else f"{len(known['findings'])} are recorded, not repaired:"), ""]
for f in known["findings"]:
    out.append(f"* {f}")
out += ["", "| property | commit | what failed |", "|---|---|---|"]
for line in known["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line, re.S)
    out.append("| %s | %s | %s |" % tuple(x.replace("|", "\\|") for x in m.groups()))
out += ["", "## 4. Planted bugs (`seeded/`) and what catches them", "",
        "Each was written from the text of the property, kept after confirming in a scratch copy that it applies, that all stable tests",
        "pass with it and that its demonstration tells the trees apart. All are caught by the quick check of their own property.", "",
        "| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
tail = T / "design_tail.md"
if tail.exists():
    out += ["", tail.read_text().rstrip()]
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
