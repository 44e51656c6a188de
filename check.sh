#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyzer from source and applies the property's rules to the
# current working tree of /repo (VERIF_REPO overrides it, for development).
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$HERE"
REPO="${VERIF_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ "$REPO" != /repo ] && export GOWORK="$REPO/go.work"
BIN="$HERE/evidence/.bin"
mkdir -p "$BIN"
( cd "$HERE/analyzer" && GOFLAGS=-mod=mod GOWORK=off go build -o "$BIN/analyzer.$$" . ) || { echo "cannot build the analyzer"; exit 2; }
cd "$REPO" || exit 2
VERIF_REPO="$REPO" "$BIN/analyzer.$$" check "$1" "${2:-quick}"
rc=$?
/bin/rm -f "$BIN/analyzer.$$"
exit $rc
