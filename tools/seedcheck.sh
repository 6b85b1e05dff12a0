#!/bin/bash
# tools/seedcheck.sh ID [--notest] [CHECKPROP...]
# Validates a planted change in a scratch worktree: demo passes without it, fails with it,
# the existing tests still pass, and runs the property's check against the changed tree.
id=$1; shift
notest=0
[ "$1" = --notest ] && { notest=1; shift; }
src=/verif/seeded/$id
wt=$(mktemp -d /tmp/seed-XXXXXX)
trap 'git -C ${SEED_REPO:-/repo} worktree remove --force "$wt" >/dev/null 2>&1; rm -rf "$wt"' EXIT
rmdir "$wt"; git -C ${SEED_REPO:-/repo} worktree add -q --detach "$wt" HEAD || exit 9
export PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH LC_ALL=C.UTF-8 LANG=C.UTF-8 LANGUAGE=en_US
unset PYTHONPATH
demo() { local d; d=$(mktemp -d /tmp/demo-XXXX); cp "$src"/* "$d"/; rm -f "$d"/*.diff "$d"/meta.json
  (cd "$wt" && timeout 300 bash "$d/demo.sh" >/tmp/demo.log 2>&1); local r=$?; rm -rf "$d"; return $r; }
demo; r0=$?
git -C "$wt" apply "$src/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
demo; r1=$?
echo "$id: demo clean=$r0 patched=$r1 $([ $r0 = 0 ] && [ $r1 != 0 ] && echo OK || echo BAD; )"
if [ $notest = 0 ]; then
  (cd "$wt" && PYTHONHASHSEED=0 PYTHONPATH=$wt /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -W ignore --basetemp=$wt.base 2>&1 | tail -3); rm -rf $wt.base
fi
prop=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
for p in ${@:-$prop}; do
  (cd /verif && VERIF_REPO=$wt timeout 900 /opt/venv/bin/python -B sim/run.py $p --no-evidence --no-shrink | tail -4 | cut -c1-400)
done
