#!/bin/bash
# check.sh PROP [TIER]   builds the harness against /repo's working tree and decides PROP
# check.sh replay FILE   runs a saved case
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off CGO_ENABLED=1
unset GODEBUG GOEXPERIMENT
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
bin=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
cd "$VERIF_DIR/harness" || exit 3
go1.27 build -o "$bin/harness" . || { echo "harness does not build" >&2; exit 3; }
case "$1" in
C22) go1.27 build -race -o "$bin/harness-race" . || { echo "race harness does not build" >&2; exit 3; } ;;
replay) if grep -qs '"property": "C22"' "$2"; then go1.27 build -race -o "$bin/harness-race" . || exit 3; fi ;;
esac
[ -e "$bin/harness-race" ] && export VERIF_RACE_BIN="$bin/harness-race"
cd "$VERIF_DIR" || exit 3
if [ "$1" = replay ]; then
	"$bin/harness" replay "$2"
else
	"$bin/harness" run "$1" "${2:-${VERIF_TIER:-quick}}"
fi
