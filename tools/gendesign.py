"""Regenerate DESIGN.md."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from catalog import PROPS, NA  # noqa
from design_text import HOW, SEC_AFTER  # noqa
out = [(V / "tools/design_before.md").read_text()]
for p in sorted(PROPS, key=lambda p: p["id"]):
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    if i in NA:
        out.append(f"Not applicable: {NA[i]}\n"); continue
    how, oracle = HOW[i]
    out.append(f"* Executed: {how}\n* Oracle: {oracle}\n* For all: {p['forall']}.\n* Beyond tests: {p['why']}")
    try:
        e = json.loads((V / f"evidence/{i}.json").read_text()); c = e["coverage"]
        out.append(f"* Cost (quick): {c['states']} paths, {c['transitions']} branch decisions, {e['wall_s']:.0f} s. Cases:")
        for k in c["cases"]:
            out.append(f"  - `{k['name']}`: {k['bounds']}")
    except (OSError, KeyError):
        pass
    out.append("")
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| `{m.parent.name}` | {d['property']} | {d['what_it_breaks']} |")
out.append(SEC_AFTER.replace("SEEDTABLE", "\n".join(rows)))
(V / "DESIGN.md").write_text("\n".join(out))
