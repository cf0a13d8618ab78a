#!/bin/bash
# exit 0: finch behaves as it should; 1: it does not
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
cp /repo/go.mod "$T/f.mod" && cp /repo/go.sum "$T/f.sum" || exit 2
(cd /repo && go build -modfile="$T/f.mod" -o "$T/finch" ./bin/finch) || exit 2
(cd "$D" && go build -o "$T/demo" .) || exit 2
cd "$T" && ./demo "$T/finch"
