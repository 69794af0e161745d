#!/bin/bash
# Runs the check of each planted bug's property on a copy of the library with the bug: tools/seeds.sh [IDs]; results in tools/seed_results.json.
cd /verif
one() {
  b=$1; d=/tmp/seedrun_$b; mkdir -p $d; cp -a /repo/sdk $d/ 2>/dev/null
  (cd $d && git init -q . 2>/dev/null; git apply --directory= /verif/seeded/$b/patch.diff) || { echo "$b noapply"; rm -rf "$d"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  o=$(PV_REPO_LIB=$d/sdk/python/lib PV_EVIDENCE=/tmp python3 check.py $p 2>&1); r=$?
  echo "$b $r $(echo "$o" | grep -q 'no-failing-input-found' && echo noinput || echo input)"
  rm -rf "$d"
}
export -f one
ids=${@:-$(ls seeded)}
printf "%s\n" $ids | xargs -P ${P:-3} -I{} bash -c 'one {}' | tee /tmp/seeds.out
python3 - <<'PY'
import json, os
f = "/verif/tools/seed_results.json"
d = json.load(open(f)) if os.path.exists(f) else {}
for l in open("/tmp/seeds.out"):
    b, *x = l.split()
    d[b] = "patch does not apply" if x[0] == "noapply" else "missed" if x[0] == "0" else "caught, with a failing input" if x[1] == "input" else "caught, no failing input found"
d = {b: v for b, v in d.items() if os.path.isdir("/verif/seeded/" + b)}
json.dump(d, open(f, "w"), indent=0, sort_keys=True)
PY
