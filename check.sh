#!/bin/bash
# check.sh ID [--replay FILE]: builds the harness against /repo's working tree
# and runs the monitors of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GO111MODULE=on
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap 'rm -rf -- "$out"' EXIT
cd "$here/harness" || exit 3
race=()
case $id in
R04) race=(-race); export HARNESS_RACE=1 ;;
esac
if ! go build "${race[@]}" -tags verif -o "$out/harness" . 2>"$out/build.log"; then
	cat "$out/build.log" >&2
	echo "check error: the harness does not build against /repo" >&2
	exit 3
fi
"$out/harness" run "$here" "$id" "$@"
