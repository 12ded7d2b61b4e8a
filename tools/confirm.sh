#!/bin/bash
# Development helper: confirm planted bugs (builds, stable tests pass, demo fails) and run checks on them.
# usage: confirm.sh [-c] BUG...   (-c: only run the checks, no build/test/demo confirmation)
only=0; [ "$1" = -c ] && { only=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
stable() { python3 - "$1" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    return set(x if isinstance(x,list) else x.keys())
passed=names(o.get("passed",o)); want=b.get("stable") or b.get("passed") or b.get("tests")
want=names(want)
print("tests-ok" if want<=passed else "tests-FAIL %s"%sorted(want-passed))
P
}
for b in "$@"; do
  d=$V/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$b: patch does not apply"; continue; }
  msg=""
  if [ $only = 0 ]; then
    if bash /opt/vp/build.sh >/tmp/plant/build.log 2>&1; then msg="build-ok"; else msg="build-FAIL"; fi
    bash /opt/vp/test.sh /tmp/plant/t.json >/tmp/plant/test.log 2>&1; msg="$msg $(stable /tmp/plant/t.json)"
    rm -rf /tmp/plant/demo; mkdir -p /tmp/plant/demo; cp $d/* /tmp/plant/demo/; rm -f /tmp/plant/demo/patch.diff /tmp/plant/demo/meta.json
    (cd /repo && timeout 300 bash /tmp/plant/demo/demo.sh) >/tmp/plant/demo-$b.log 2>&1; msg="$msg demo-rc=$?"
  fi
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick $V/check $c >/tmp/plant/check-$b-$c.log 2>&1; rc=$?
    msg="$msg | $c rc=$rc $(grep -m1 -c VIOLATION /tmp/plant/check-$b-$c.log) ($(( $(date +%s)-s ))s)"
  done
  git -C /repo checkout -q -- .
  echo "$b [$p]: $msg" | tee -a /tmp/plant/results.txt
done
