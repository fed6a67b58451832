"""fixed.py PROP 'git log grep' 'what failed': record a fix commit (author's tool)."""
import json, subprocess, sys
prop, pat, what = sys.argv[1:4]
h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-1", f"--grep={pat}"], text=True).strip()
assert h, pat
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps(dict(property=prop, status="fixed", commit=h, what=f"fixed: property={prop} {h} {what}"), separators=(",", ":")) + "\n")
print(h)
