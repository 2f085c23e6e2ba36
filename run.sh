#!/bin/bash
# run.sh PROPERTY          builds the harness against /repo's working tree and runs one check
# run.sh replay FILE       replays a recorded failure
# run.sh warm              compiles once, to fill the build cache
set -u
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd "$(dirname "$0")/harness" || exit 2
VERIF_DIR="$(cd .. && pwd)"; export VERIF_DIR
tmp="$(mktemp -d /tmp/verif-build-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
build() { # output, extra flags
    out="$1"; shift
    go build -mod=readonly -buildvcs=false "$@" -o "$out" . >"$tmp/log" 2>&1 && return 0
    cat "$tmp/log" >&2
    echo "TROUBLE: the harness does not build against /repo" >&2
    exit 2
}
case "${1:-}" in
warm)
    build "$tmp/h"
    build "$tmp/hr" -race
    exit 0 ;;
replay)
    prop="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
    file="$(cd "$OLDPWD" && realpath "$2")" ;;
C[0-9][0-9]) prop="$1" ;;
*) echo "usage: run.sh PROPERTY | replay FILE | warm" >&2; exit 2 ;;
esac
if [ "$prop" = C26 ]; then build "$tmp/h" -race; else build "$tmp/h"; fi
if [ "$1" = replay ]; then "$tmp/h" replay "$file"; else "$tmp/h" run "$prop"; fi
exit $?
