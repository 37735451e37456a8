#!/bin/bash
# usage: check.sh Cxx [quick|thorough]        run one property's check
#        check.sh replay FILE                 re-execute the case of a replay file
# Builds the harness against /repo's current working tree, runs it, removes the build.
# Exit: 0 held, 1 violated (VIOLATION line), 3 no verdict.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
work=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 3
what=$1
prop=$1
[ "$what" = replay ] && prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")
race=
case $prop in C17|C18) race=-race;; esac
build() {
  ( cd "$here/harness" && go build $race -tags "$1" -buildvcs=false -mod=mod -modfile="$work/go.mod" -o "$work/harness" . ) >"$work/build.log" 2>&1
}
# the helper package's dead code may come and go: only C32 needs it
build verif || { [ "$prop" != C32 ] && cp "$work/build.log" "$work/first.log" && build verif,noutils; } || {
  cat "$work/build.log"; echo "inconclusive: the harness does not build against /repo"; exit 3; }
export VERIF_SCRATCH="$work"
if [ "$what" = replay ]; then
  "$work/harness" replay "$2"; exit $?
fi
tier=${2:-${VERIF_TIER:-quick}}
"$work/harness" run -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" ${VERIF_CASE:+-case $VERIF_CASE} \
  -evidence "$here/evidence/$prop.json" -replays "$here/evidence/replay" -known "$here/known_findings.txt"
exit $?
