"""mkseed.mk(id, prop, [(file, old, new)...], demo_py, needs, breaks): write seeded/<id>/ (author's tool)."""
import difflib, json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path("/repo")
B = "python/lsst/pipe/base/"
def mk(id, prop, edits, demo, needs, breaks):
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    texts = {}
    for f, old, new in edits:
        s = texts.get(f) or (R / B / f).read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        texts[f] = s.replace(old, new)
    out = ""
    for f, new in texts.items():
        a = (R / B / f).read_text().splitlines(True)
        out += f"diff --git a/{B}{f} b/{B}{f}\n" + "".join(difflib.unified_diff(a, new.splitlines(True), f"a/{B}{f}", f"b/{B}{f}"))
    (d / "patch.diff").write_text(out)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
