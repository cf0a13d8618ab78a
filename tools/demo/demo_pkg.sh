#!/bin/bash
# exit 0: finch behaves as it should; 1: it does not
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
printf '{"Replace": {"/repo/PKG/zz_demo_test.go": "%s/demo_test.go"}}' "$D" > "$T/overlay.json"
cp /repo/go.mod "$T/f.mod" && cp /repo/go.sum "$T/f.sum" || exit 2
cd /repo && go test FLAGS -count=1 -timeout 200s -modfile="$T/f.mod" -overlay "$T/overlay.json" -run 'TestDemo$' ./PKG
