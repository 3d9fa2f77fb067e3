#!/bin/bash
# plant.sh <bug id> [check ids...]: verifies a planted bug (applies, builds, stable tests pass, demo fails with it and
# passes without it) and runs the given checks (default: its own property) against it.  /repo is restored afterwards.
here="$(cd "$(dirname "$0")/.." && pwd)"
d="$here/seeded/$1"; id="$1"; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
restore() { git -C /repo checkout -- .; }
trap restore EXIT
export DIJITSO_CACHE_DIR=/opt/vp-cache/dijitso
checks=("$@")
[ ${#checks[@]} -gt 0 ] || checks=("$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")")
demo() { (cd /repo && timeout 300 bash "$d/demo.sh" > "/tmp/w/plant/$id.$1.log" 2>&1); echo "$id demo $1: $?"; }
if [ -z "$SKIP" ]; then demo clean; fi
git -C /repo apply "$d/patch.diff" || exit 2
if [ -z "$SKIP" ]; then
demo bug
bash /opt/vp/build.sh || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/w/plant/t.json > /tmp/w/plant/t.log 2>&1
python3 - <<P
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/w/plant/t.json'));print("$id stable tests failing:",sorted(b-set(t['passed'])))
P
fi
for c in "${checks[@]}"; do
  "$here/run_check.sh" "$c" quick > "/tmp/w/plant/$id.$c.log" 2>&1
  echo "$id $c exit $? $(grep -c VIOLATION /tmp/w/plant/$id.$c.log) $(grep -m1 VIOLATION /tmp/w/plant/$id.$c.log)"
done
