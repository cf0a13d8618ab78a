#!/bin/bash
# Builds, offline, everything the checks run: finch itself (plain and with the
# race detector) and the harness (same two ways), from /repo's working tree.
export VERIF_ROOT="${VERIF_ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
. /opt/vp/env.sh
B="${VERIF_BUILD:-$VERIF_ROOT/.build}"
mkdir -p "$B"
# copies of /repo's go.mod/go.sum, so that building never touches the tracked ones
cp /repo/go.mod "$B/finch.mod" && cp /repo/go.sum "$B/finch.sum" || exit 2
set -e
( cd /repo && go build -modfile="$B/finch.mod" -o "$B/finch" ./bin/finch ) &
p1=$!
( cd "$VERIF_ROOT/harness" && go build -o "$B/check" ./cmd/check ) &
p2=$!
wait $p1; wait $p2
# finch with a user's generator and reporter; only C24 needs it
( cd "$VERIF_ROOT/harness" && rm -f "$B/finch-ext" "$B/finch-ext-race" && go build -o "$B/finch-ext" ./cmd/finchext && go build -race -o "$B/finch-ext-race" ./cmd/finchext || echo "finch-ext was not built" >&2 ) &
p3=$!
( cd /repo && go build -race -modfile="$B/finch.mod" -o "$B/finch-race" ./bin/finch ) &
p1=$!
( cd "$VERIF_ROOT/harness" && go build -race -o "$B/check-race" ./cmd/check ) &
p2=$!
wait $p1; wait $p2
wait $p3
