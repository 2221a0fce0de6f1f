import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from spec import PROPS  # noqa: E402

V = Path(__file__).resolve().parent.parent
claimed = [p for p in PROPS if (V / "checks" / f"{p[0]['id'].lower()}.py").exists()]
(V / "properties.jsonl").write_text("".join(json.dumps(p[0]) + "\n" for p in claimed))
for p in claimed:
    d = p[0]
    assert len(d["title"]) <= 80, d["id"]
    n = sum(d["statement"].count(x) for x in (". ",)) + 1
    if n > 3:
        print("WARN statement sentences", d["id"], n)
    for f in d["anchors"]["files"]:
        assert (Path("/repo") / f).exists(), (d["id"], f)
man = dict(
    version=1,
    setup_cmd="PYTHONPATH=/repo MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import seyfert, numpy, h5py, camb'",
    hooks=dict(guard="SEYFERT_HOOKS", enable="no hooks were needed: monitors wrap the public API from outside (the guard variable is reserved and unused)", source_commits=[]),
    checks=[dict(property=d["id"], quick_cmd=f"bash check.sh {d['id']} quick", thorough_cmd=f"bash check.sh {d['id']} thorough",
                 evidence_file=f"evidence/{d['id']}.json", technique="runtime monitoring: " + t, level=lv, level_note=note)
            for d, t, lv, note in claimed],
    not_applicable=[],
    notes="Runtime monitors (shadow models, differential oracles, trace checkers, fault injection) over the real package; see DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(claimed), "properties")
