#!/bin/bash
# check.sh ID: builds the analyser from the committed sources and applies the rule of one property
# to the current source of /repo. Nothing of the repository is run.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on CGO_ENABLED=0
bin="$(mktemp -d)"
trap 'rm -rf "$bin"' EXIT
(cd "$here/checker" && GOFLAGS="-mod=vendor -buildvcs=false" go build -o "$bin/ck" .) || {
	GOCACHE="$bin/cache"
	(cd "$here/checker" && GOFLAGS="-mod=vendor -buildvcs=false" go build -o "$bin/ck" .) || { echo "the analyser does not build"; exit 3; }
}
[ "$1" = --build-only ] && exit 0
CHECK_VERIF="$here" "$bin/ck" "$1"
