#!/bin/bash
# Warms the build cache: every check rebuilds what it needs anyway.
set -u
. /opt/vp/env.sh
cd "$(dirname "$0")/instr" && GOFLAGS= go vet . || exit 1
cd /repo && go build ./... || exit 1
go build -race std >/dev/null 2>&1
exit 0
