#!/bin/bash
# tools/tryseed.sh ID [notest]: confirm a planted change in a scratch copy of /repo and show which checks report it.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); s=$here/seeded/$id
. /opt/vp/env.sh
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 2
run_demo() { (cd "$w/repo"; timeout 300 bash "$s/demo.sh" >"$w/demo.out" 2>&1; echo $?); }
[ -f "$s/patch.diff" ] || { echo no patch; exit 2; }
a=$(run_demo); [ "$a" = 0 ] || { echo "demo on unchanged tree: rc $a"; tail -5 "$w/demo.out"; }
git apply "$s/patch.diff" || { echo "patch does not apply"; exit 2; }
b=$(run_demo); echo "demo unchanged=$a patched=$b"; tail -2 "$w/demo.out"
if [ "$2" != notest ]; then
  export TMPDIR=$w
  PYTHONPATH=$w/repo/src python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 8 -o junit_family=xunit2 --junitxml="$w/junit.xml" src/ocgis/test >/dev/null 2>&1
  /usr/bin/python3 /opt/vp/results.py "$w/o.json" junit:"$w/junit.xml" >/dev/null
  python3 - "$w/o.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=set(b['stable'])-set(o['passed']); print('stable tests lost:',len(m),sorted(m)[:5])
P
fi
cd "$here"
for p in ${CHECKS:-$(python3 -c "
import sys; sys.path.insert(0,'$here')
from sa import registry; print(' '.join(sorted(registry.PROPS)))")}; do
  VERIF_EVIDENCE=$w VERIF_REPO=$w/repo python3 check.py $p > "$w/c.out" 2>&1; rc=$?
  [ $rc = 0 ] || { echo "$p rc=$rc"; grep -v "^KNOWN\|^P..:" "$w/c.out" | head -4; }
done
