#!/bin/bash
# runs the repository's tests (of $REPO, default /repo) and lists stable tests that do not pass
repo=${REPO:-/repo}
. /opt/vp/env.sh
w=$(mktemp -d); trap 'rm -rf -- "$w"' EXIT
mkdir $w/logs $w/work
tar -C $repo --exclude=./.git -cf - . | tar -C $w/work -xf -
T="go test -json -vet=off -count=1 -timeout 10m"
(cd $w/work && $T ./... > $w/logs/root.json)
(cd $w/work/cmd/sqlgen && $T ./... > $w/logs/cmd.json)
cd $w/work/examples; $T ./testcase/... ./db/... > $w/logs/testcase.json
for t in $(go test -vet=off -list '^(Test|Fuzz|Example)' . | grep -E '^(Test|Fuzz|Example)'); do
	$T -run "^$t\$" . > $w/logs/examples-$t.json
done
cd /; python3 /opt/vp/results.py $w/o.json "gojson:$w/logs/*.json" | tail -1
python3 - $w/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
print('stable failing:',[t for t in b['stable'] if t not in set(o['passed'])][:10])
P
