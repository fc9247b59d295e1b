#!/bin/bash
# run.sh check -property C01 -tier quick | run.sh replay FILE | run.sh build DIR KIND [race]
# Builds the orchestrator and runs it. Everything is rebuilt from /repo's
# working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export VERIF_DIR="$here" GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
unset GODEBUG GORACE
mkdir -p "$here/build"
bin="$here/build/vsim.$$"
trap '/bin/rm -f "$bin"' EXIT
(cd "$here" && go build -o "$bin" ./cmd/vsim) || exit 3
if [ "${1:-}" = setup ]; then exit 0; fi
"$bin" "$@"
