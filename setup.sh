#!/bin/bash
# Builds the analyzer once so that the Go build cache is warm; checks rebuild it.
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$HERE/evidence/.bin"
cd "$HERE/analyzer" && GOFLAGS=-mod=mod GOWORK=off go build -o "$HERE/evidence/.bin/setup.$$" .
/bin/rm -f "$HERE/evidence/.bin/setup.$$"
