#!/bin/bash
# newbug.sh ID PROPERTY NEEDS BREAKS  -- captures the current diff of ${REPO:-/repo} as seeded/ID and reverts it
d=/verif/seeded/$1; mkdir -p $d; git -C ${REPO:-/repo} diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty; exit 1; }
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
git -C ${REPO:-/repo} checkout -- .
