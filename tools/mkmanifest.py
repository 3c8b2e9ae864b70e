"""Writes /verif/MANIFEST.json: one check per property that has a rule module, the rest not applicable."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
sys.path.insert(0, str(ROOT / "tools"))
from claims import CLAIMS, DECLINED

checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS and (ROOT / "sa" / "rules" / f"{i.lower()}.py").exists():
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=DECLINED.get(i, "no check is built for this property yet")))
doc = dict(version=1, setup_cmd="python3 -c 'import sa.loader; sa.loader.Program()'", checks=checks, not_applicable=na)
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
