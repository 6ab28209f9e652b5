#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the checker from /repo's working tree and runs it.
# Exit 0: the property held on everything explored; 1: violated; 2: an error of the check.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$VERIF/evidence"
rm -f -- "$VERIF/evidence/$ID.json" "$VERIF/evidence/$ID.cx.json"
# A build that was ended for want of memory or processes says nothing of the tree: it is tried again.
try() { # directory, command
	local dir=$1 n rc
	shift
	for n in 1 2 3 4; do
		(cd "$dir" && "$@") >"$W/log" 2>&1 && return 0
		rc=$?
		[ $rc -ge 128 ] || grep -qE 'signal: killed|Killed|cannot allocate memory|resource temporarily unavailable' "$W/log" || return $rc
		sleep $((n * 5))
	done
	return $rc
}
try "$VERIF/instr" env GOFLAGS= go build -o "$W/instr" . || { cat "$W/log"; exit 2; }

POINTS=
SYNC=false
case $ID in
C15 | C16 | C24) SYNC=true POINTS=internal/database,pkg/database,internal/structs/models,internal/structs/schemas ;;
esac
# Less instrumentation explores fewer choices; it is only what remains should the tree have
# something the instrumentation cannot rewrite.
build() { # name, points, build flags
	local name=$1 points=$2 level
	shift 2
	for level in 2 1 0; do
		rm -rf -- "$W/o.$name"
		mkdir -p "$W/o.$name"
		"$W/instr" -repo "$REPO" -verif "$VERIF" -out "$W/o.$name" -level $level -sync=$SYNC -points "$points" >"$W/info.$name" 2>"$W/log" || continue
		try "$REPO" go build -overlay "$W/o.$name/overlay.json" "$@" -o "$W/$name" ./internal/verifmc || continue
		INFO="{\"level\":$level,\"rewritten\":$(cat "$W/info.$name")}"
		return 0
	done
	cat "$W/log"
	return 1
}
FLAGS=()
[ "$ID" = C16 ] && FLAGS=(-race)
build mc "$POINTS" ${FLAGS[@]+"${FLAGS[@]}"} || exit 2
TMPDIR=$W "$W/mc" -check "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" -info "$INFO" \
	-evidence "$VERIF/evidence/$ID.json" -cx "$VERIF/evidence"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
