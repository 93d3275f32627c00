#!/bin/bash
# run.sh PROPERTY quick|thorough -- decides one property against /repo's working tree.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
# Anything else: the check itself could not run.
prop=$1
tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VH_REPO:-/repo}
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOFLAGS=-buildvcs=false
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOWORK GOROOT
export VH_VERIF=$here VH_TIER=$tier VH_REPO=$repo VERIF_SEED=${VERIF_SEED:-1}
w=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXXXX") || exit 2
trap 'rm -rf -- "$w"' EXIT
export VH_WORK=$w
mkdir -p "$here/evidence"
rm -f -- "$here/evidence/$prop.json"

broken() { # REASON LOGFILE: the code under test cannot even be built/run
	mkdir -p "$here/evidence/replay"
	cp -- "$2" "$here/evidence/replay/$prop-log.txt"
	python3 - "$here/evidence/$prop.json" "$prop" "$tier" "$1" <<'PY'
import json,sys
p,prop,tier,why=sys.argv[1:]
json.dump({"property":prop,"tier":tier,"seed":1,"level":"model_checking","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":[why]},"wall_s":0,"violations":1},open(p,"w"))
PY
	echo "VIOLATION property=$prop replay=$here/evidence/replay/$prop-log.txt"
	echo "  $1"
	tail -n 25 "$2"
	exit 1
}

cp -r "$here/harness" "$w/vh" || exit 2
cp "$repo/go.work.sum" "$w/go.work.sum" 2>/dev/null
cat >"$w/go.work" <<GW
go 1.24.0

use (
	$repo
	$repo/cmd/sqlgen
	./vh
)

replace github.com/si3nloong/sqlgen v1.0.0-beta.0 => $repo
GW
case $prop in
E0*) main=lib ;;
R*) main=rt ;;
G* | C*) main=gen ;;
*) echo "unknown property $prop" >&2; exit 2 ;;
esac
cd "$w/vh" || exit 2
if ! go build -o "$w/check" "./cmd/$main" >"$w/build.log" 2>&1; then
	cat "$w/build.log" >&2
	# does the code under test itself compile?
	if ! (cd "$repo" && go build ./...) >"$w/repo.log" 2>&1 || ! (cd "$repo/cmd/sqlgen" && go build ./...) >>"$w/repo.log" 2>&1; then
		echo "the repository does not compile" >&2
	fi
	exit 2
fi
"$w/check" "$prop" 2>"$w/stderr.log"
rc=$?
[ -s "$w/stderr.log" ] && tail -n 60 "$w/stderr.log" >&2
case $rc in
0 | 1) exit $rc ;;
esac
if grep -qE '^(fatal error:|panic:|runtime: |SIGSEGV|unexpected fault)' "$w/stderr.log"; then
	broken "the code under test crashed the process" "$w/stderr.log"
fi
exit 2
