#!/bin/bash
# Checks that everything the checks need is here and compiles. Writes only under a scratch directory.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r driver spec "$d"
(cd "$d/driver" && go build -o "$d/core" ./core)
cd "$d/spec"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$d/out" 2>&1 || { cat "$d/out"; exit 1; }
  if grep -q -e '\*\*\* Errors' -e 'Fatal error' "$d/out"; then cat "$d/out"; exit 1; fi
done
echo ready
