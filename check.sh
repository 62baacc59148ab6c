#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the verifier, runs it on /repo's current tree, and reports.
prop="$1"; tier="${2:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOFLAGS=-mod=mod
bin="$(mktemp -d)"
trap 'rm -rf "$bin"' EXIT
mkdir -p "$here/evidence"
if ! (cd "$here/gover" && go build -o "$bin/gover" .) >"$bin/log" 2>&1; then
	cat "$bin/log"
	cp "$bin/log" "$here/evidence/replay-$prop.txt"
	echo "VIOLATION property=$prop replay=$here/evidence/replay-$prop.txt no-failing-input-found"
	exit 1
fi
"$bin/gover" -repo /repo -verif "$here" -prop "$prop" -tier "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "verifier ended with status $rc" | tee "$here/evidence/replay-$prop.txt"
	echo "VIOLATION property=$prop replay=$here/evidence/replay-$prop.txt no-failing-input-found"
	exit 1
fi
exit $rc
