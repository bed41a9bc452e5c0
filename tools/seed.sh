#!/bin/bash
# seed.sh ID...: confirm planted bugs in /repo (applied, built, tested, demonstrated, checked, undone).
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $d/demo.sh >/tmp/seed_clean.log 2>&1; c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
  bash $d/demo.sh >/tmp/seed_bug.log 2>&1; x=$?
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed_test.json >/dev/null 2>&1; t=$(python3 - <<P
import json
base = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open('/tmp/seed_test.json'))
def names(o):
    if isinstance(o, dict):
        for k in ("passed", "stable", "tests"):
            if k in o: return o[k]
    return o
b, p = set(names(base)), set(names(r))
print(len(b - p), sorted(b - p)[:3])
P
); fi
  VERIF_EVIDENCE=/tmp/seed_ev python3 analysis/check.py $prop > /tmp/seed_check.log 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$id [$prop]: demo clean=$c bug=$x, build=$b, stable tests lost: $t, check exit=$k"
  grep -A1 VIOLATION /tmp/seed_check.log | head -4 | cut -c1-300
done
