#!/bin/bash
# usage: check.sh PROPERTY quick|thorough      Rebuilds the analyser if needed, then analyses /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1 tier=${2:-quick}
bin=$here/bin/ocheck
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
unset GOROOT GOFLAGS
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$here/bin"
	if ! (cd "$here/checker" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin"); then
		echo "the analyser could not be built"
		echo "VIOLATION property=$prop replay=none"
		exit 1
	fi
fi
[ "$prop" = setup ] && exit 0
"$bin" -verif "$here" -repo /repo -property "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "the analyser ended with status $rc: undecided"
	echo "VIOLATION property=$prop replay=none"
	rc=1
fi
exit $rc
