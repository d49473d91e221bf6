#!/bin/bash
# trybug.sh ID [check]: confirms a planted change (builds, stable tests pass, demo tells them apart) and, with
# "check", runs its property's check on the changed tree.  Leaves /repo as it was.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply $d/patch.diff || exit 1
if [ "$2" != only ]; then
bash /opt/vp/build.sh >/tmp/trybug.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/trybug.log; exit 1; }
bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/trybug.json'))
def names(x, k):
    return set(x[k]) if isinstance(x.get(k), list) else set()
base=set(b['stable'])
now=set(t['passed'])
lost=base-now
print("tests lost:", len(lost), sorted(lost)[:5], "of", len(base))
raise SystemExit(1 if lost else 0)
P
bash $d/demo.sh >/tmp/demo.log 2>&1; r=$?
echo "demo with patch: $r"
fi
if [ -n "$2" ]; then (cd /verif && python3 check.py $prop; echo "check rc $?"); fi
git checkout -q -- .
if [ "$2" != only ]; then
bash /opt/vp/build.sh >/tmp/trybug.log 2>&1
bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo without: $?"
fi
