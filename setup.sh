#!/bin/bash
# Warms Go's build cache: builds the harness once without and once with the race detector.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
work=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 1
cd "$here/harness" || exit 1
go build -tags verif -buildvcs=false -mod=mod -modfile="$work/go.mod" -o "$work/a" . && \
go build -race -tags verif -buildvcs=false -mod=mod -modfile="$work/go.mod" -o "$work/b" .
