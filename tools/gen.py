"""Regenerate properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from catalog import PROPS, NA  # noqa

TECH = "bounded symbolic execution of the real code with z3 deciding every branch and assertion"
lines, checks, na = [], [], []
for p in PROPS:
    d = dict(id=p["id"], title=p["title"], statement=p["statement"],
             quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
             anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                          observe_at=p.get("observe", []), hook_needed=None))
    assert len(d["title"]) <= 80, d["title"]
    lines.append(json.dumps(d))
    built = list((V / "props").glob(p["id"].lower() + "_*.py"))
    if built and p["id"] not in NA:
        checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}",
                           thorough_cmd=f"bash check.sh {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking",
                           level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: environment stand-ins are installed from /verif at run time."), indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
