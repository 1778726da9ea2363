#!/bin/bash
# builds the symbolic executor and warms the build cache
D="$(cd "$(dirname "$0")" && pwd)"
. "$D/tools/env.sh"
set -e
mkdir -p "$D/bin" "$D/.cache" "$D/evidence"
cd "$D/engine" && go build -o "$D/bin/symgo" .
cd "$D/harness"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
go build -o "$T/replay" ./cmd/replay
CGO_ENABLED=1 go build -race -o "$T/replay-race" ./cmd/replay || true
