#!/bin/bash
# usage: plant.sh <seeded dir> [--no-tests] : in a scratch copy of /repo, confirm a planted change
# (demo passes without it and fails with it; the stable tests still pass) and run the property's check.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
S=$(realpath "$1"); shift
prop=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$S/meta.json")
C=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$C"' EXIT
cp -a /repo "$C/repo"; R=$C/repo
mkdir "$C/demo"; cp "$S"/demo.* "$C/demo/"
export PYTHONDONTWRITEBYTECODE=1
(cd "$R" && bash "$C/demo/demo.sh") >"$C/d0" 2>&1; d0=$?
git -C "$R" apply "$S/patch.diff" || { echo "patch does not apply"; exit 3; }
(cd "$R" && bash "$C/demo/demo.sh") >"$C/d1" 2>&1; d1=$?
echo "demo: unpatched=$d0 patched=$d1"; [ $d0 = 0 ] || tail -5 "$C/d0"; [ $d1 != 0 ] && tail -1 "$C/d1"
t=skipped
if [ "${1:-}" != --no-tests ]; then
  sed -e "s#cd /repo#cd $R#; s#safe.directory=/repo#safe.directory=$R#; s#PYTHONPATH=/opt/vp#PYTHONPATH=/opt/vp:$R#; s#-n 8#-n ${PLANT_N:-8}#" /opt/vp/test.sh >"$C/test.sh"
  bash "$C/test.sh" "$C/out.json" >"$C/t.log" 2>&1
  t=$(/opt/venv/bin/python - "$C/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
want=b.get('stable') or b.get('stable_passing') or b.get('passed') or b.get('passing')
got=set(o['passed'])
miss=[x for x in want if x not in got]
print('%d stable tests fail'%len(miss), miss[:4])
PY
)
fi
echo "tests: $t"
VF_REPO=$R bash "$here/check.sh" "$prop" >"$C/c.log" 2>&1; c=$?
echo "check $prop: exit=$c $(grep -c '^VIOLATION' "$C/c.log") violation line(s)"
grep -m2 '^VIOLATION' "$C/c.log"; [ $c -gt 1 ] && tail -5 "$C/c.log"
exit 0
