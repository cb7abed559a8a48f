"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os

TECH = "bounded symbolic execution of the real torch code (aten-level terms), every obligation decided by z3"
NOTE = {}
NA = {}
for l in open("properties.jsonl"):
    p = json.loads(l)
    NOTE[p["id"]] = p["title"]
try:
    from manifest_notes import NOTES, NOT_APPLICABLE
except ImportError:
    NOTES, NOT_APPLICABLE = {}, {}
checks, na = [], []
for pid in NOTE:
    if pid in NOT_APPLICABLE:
        na.append(dict(property=pid, reason=NOT_APPLICABLE[pid]))
    elif os.path.exists(f"checks/{pid.lower()}.py"):
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"/opt/venv/bin/python check.py {pid} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python check.py {pid} --tier thorough",
                technique=TECH,
                level="model_checking",
                level_note=(
                    "For the shapes and options listed in the evidence's bounds, every obligation is decided by the solver for all tensor "
                    "contents, indices and random draws (real arithmetic in place of floating point; the terms are cross-checked against the "
                    "concrete run on every path). Trusts z3, the aten-operator semantics of symx/ops.py and torch's own decompositions. "
                    + NOTES.get(pid, "")
                ).strip(),
            )
        )
    else:
        na.append(dict(property=pid, reason="no check built yet"))
json.dump(
    dict(version=1, setup_cmd="/opt/venv/bin/python check.py --setup", checks=checks, not_applicable=na,
         notes="Checks execute the code under test from /repo (or $ML4GW_REPO) symbolically; see DESIGN.md."),
    open("MANIFEST.json", "w"), indent=1,
)
print(len(checks), "claimed", len(na), "not")
