#!/bin/bash
# tools/seed.sh ID...: confirms planted bugs in a scratch copy of /repo (applies, builds, tests pass, demo passes before and fails after)
# and runs the check of their property against them.  NOCHECK=1 skips the latter, NOCONF=1 the former.
cd "$(dirname "$0")/.." || exit 1
S=/tmp/s; R=$S/repo; mkdir -p $S
if [ ! -d $R/_build/bin ]; then cp -a /repo $R; rm -rf /tmp/s/repo/_build; fi
git -C $R fetch -q /repo HEAD && git -C $R checkout -qf FETCH_HEAD && git -C $R clean -qfd
sed "s#/repo#$R#g" /opt/vp/build.sh > $S/build.sh; sed "s#/repo#$R#g" /opt/vp/test.sh > $S/test.sh
bld() { bash $S/build.sh > $S/build.log 2>&1 || { echo "  build failed"; tail -5 $S/build.log; return 1; }; }
for id in "$@"; do
  d=$(realpath seeded/$id); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); echo "== $id ($p)"
  if [ -z "$NOCONF" ]; then
    git -C $R checkout -q -- .; bld || continue
    (cd $R && bash $d/demo.sh > $S/demo.log 2>&1) || { echo "  demo fails on the unchanged tree"; tail -3 $S/demo.log; continue; }
    git -C $R apply $d/patch.diff || { echo "  does not apply"; continue; }
    bld || { git -C $R checkout -q -- .; continue; }
    bash $S/test.sh $S/out.json > $S/test.log 2>&1; python3 - <<P
import json

print("  tests:", open('$S/test.log').read().strip().splitlines()[-1] if True else '')
P
    if (cd $R && bash $d/demo.sh > $S/demo.log 2>&1); then echo "  DEMO PASSES with the patch"; else echo "  demo fails with the patch: $(tail -1 $S/demo.log)"; fi
    git -C $R checkout -q -- .
  fi
  if [ -z "$NOCHECK" ]; then
    git -C $R checkout -q -- . && git -C $R apply $d/patch.diff && { VERIF_REPO=$R ./check.py $p > $S/check.log 2>&1; rc=$?; git -C $R checkout -q -- .; v=$(grep VIOLATION $S/check.log | head -1 | sed 's/.*replay.C[0-9]*-//;s/.txt//'); sed -i "/^$id /d" tools/seed-results.txt; if [ $rc = 1 ]; then echo "$id caught: $v"; else echo "$id MISSED (exit $rc)"; fi >> tools/seed-results.txt; sort -o tools/seed-results.txt tools/seed-results.txt; echo "  check exit $rc: $(grep -c VIOLATION $S/check.log) violations: $(grep VIOLATION $S/check.log | head -2 | sed 's/.*replay\///' | tr '\n' ' ')"; }
  fi
done
