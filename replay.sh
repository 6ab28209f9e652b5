#!/bin/bash
# replay.sh FILE: runs one counterexample again on /repo's working tree, step by step.
set -u
. /opt/vp/env.sh
VERIF=$(cd "$(dirname "$0")" && pwd)
FILE=$(realpath "$1")
ID=$(sed -n 's/.*"check": *"\([^"]*\)".*/\1/p' "$FILE" | head -1)
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
POINTS=
SYNC=false
case $ID in
C15 | C16) SYNC=true POINTS=internal/database,pkg/database,internal/structs/models,internal/structs/schemas ;;
esac
(cd "$VERIF/instr" && GOFLAGS= go build -o "$W/instr" .) || exit 2
"$W/instr" -repo "${VERIF_REPO:-/repo}" -verif "$VERIF" -out "$W/o" -sync=$SYNC -points "$POINTS" >/dev/null || exit 2
FLAGS=()
[ "$ID" = C16 ] && FLAGS=(-race)
(cd "${VERIF_REPO:-/repo}" && go build ${FLAGS[@]+"${FLAGS[@]}"} -overlay "$W/o/overlay.json" -o "$W/mc" ./internal/verifmc) || exit 2
TMPDIR=$W "$W/mc" -check "$ID" -replay "$FILE"
