#!/bin/bash
# tools/seed.sh ID [notests] [PROP]: try a planted bug in a scratch copy (author's tool; not part of any check)
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"; cd "$W/r" || exit 2
export PYTHONPATH=$W/r/python PYTHONDONTWRITEBYTECODE=1
bash "$S/demo.sh" >"$W/d0" 2>&1; echo "[$id] demo base: $? (want 0)"
git apply "$S/patch.diff" || { echo "[$id] PATCH DOES NOT APPLY"; exit 2; }
bash "$S/demo.sh" >"$W/d1" 2>&1; rc=$?; echo "[$id] demo bug: $rc (want nonzero): $(tail -1 "$W/d1" | cut -c1-150)"
if [ "$2" != notests ]; then
  mkdir -p "$W/tmp"
  PYTHONHASHSEED=0 TMPDIR=$W/tmp /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --timeout=300 --show-capture=no --tb=no -o junit_family=xunit2 -o junit_logging=no --junitxml="$W/junit.xml" tests >"$W/t" 2>&1
  /usr/bin/python3 /opt/vp/results.py "$W/o.json" "junit:$W/junit.xml" >/dev/null
  /usr/bin/python3 - "$W/o.json" <<P
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))
bad=[x for x in b["stable"] if x not in set(o["passed"])]
print("[$id] stable tests broken:", bad[:5], len(bad))
P
fi
for p in ${3:-$prop}; do
( unset PYTHONPATH; cd "$V"; VERIF_DEV_PATH=$W/r/python bash check.sh $p --noevidence >"$W/c" 2>&1; rc=$?; echo "[$id] check $p exit $rc (want 1): $(grep '^case' "$W/c" | head -1 | cut -c1-200)"; [ $rc = 2 ] && tail -5 "$W/c" )
done
