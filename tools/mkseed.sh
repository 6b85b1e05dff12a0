#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "what it breaks" < python-edit-script
# Runs the edit script in a scratch worktree of /repo HEAD and stores the diff as seeded/ID/patch.diff
id=$1; prop=$2; needs=$3; what=$4
wt=$(mktemp -d /tmp/mk-XXXXXX); rmdir $wt
git -C ${SEED_REPO:-/repo} worktree add -q --detach $wt HEAD
(cd $wt && python3 -) || { echo EDIT FAILED; git -C ${SEED_REPO:-/repo} worktree remove --force $wt; exit 1; }
mkdir -p /verif/seeded/$id
git -C $wt diff > /verif/seeded/$id/patch.diff
git -C ${SEED_REPO:-/repo} worktree remove --force $wt
python3 - "$id" "$prop" "$needs" "$what" <<'P'
import json,sys
i,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
[ -s /verif/seeded/$id/patch.diff ] || { echo EMPTY PATCH; exit 1; }
