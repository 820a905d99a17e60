#!/bin/bash
# try_seed.sh ID : demo on the clean tree, then with the patch: stable tests, demo, the property's check
# with REPO set to a scratch clone of /repo the stable tests are left out
REPO="${REPO:-/repo}"; export VERIF_REPO="$REPO"
S="/verif/seeded/$1"; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$REPO"; git diff --quiet || { echo "repo dirty"; exit 1; }
bash "$S/demo.sh" > /tmp/demo.out 2>&1; echo "demo clean: $? (want 0)"; tail -3 /tmp/demo.out
git apply "$S/patch.diff" || { echo "no apply"; exit 1; }
if [ "$REPO" = /repo ]; then
bash /opt/vp/build.sh > /tmp/build.out 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/build.out; }
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
fi
bash "$S/demo.sh" > /tmp/demo.out 2>&1; echo "demo patched: $? (want != 0)"; tail -3 /tmp/demo.out
shift
for c in ${@:-$P}; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $c > /tmp/check.out 2>&1; echo "check $c: $? (want 1)"; grep -m2 VIOLATION /tmp/check.out); done
git checkout -- .
