#!/bin/bash
# bug.sh ID [notests] [PROP...]: validates seeded/ID against $REPO: demo before, applies, builds, demo after, stable tests, checks
id=$1; d=/verif/seeded/$id; repo=${REPO:-/repo}; shift
. /opt/vp/env.sh
cd $repo && git diff --quiet || { echo "repo dirty"; exit 2; }
t=$(mktemp -d); cp -r $d $t/x; rm -f $t/x/patch.diff $t/x/meta.json
( bash $t/x/demo.sh >$t/d0.log 2>&1 ); r=$?; echo "demo unpatched: $r"; [ $r = 0 ] || tail -5 $t/d0.log
git apply $d/patch.diff || exit 2
(go build ./... && cd cmd/sqlgen && go build ./...) || echo BUILD FAILED
( bash $t/x/demo.sh >$t/d1.log 2>&1 ); echo "demo patched: $?"; tail -3 $t/d1.log | cut -c1-300
[ "$1" = notests ] && shift || REPO=$repo /verif/tools/stable.sh
p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
cd /verif
for q in $p "$@"; do VH_REPO=$repo ./run.sh $q quick > $t/c.log 2>&1; echo "check $q exit $?"; grep -A1 VIOLATION $t/c.log | cut -c1-250 | head -4; done
git -C $repo checkout -- .
rm -rf $t
