#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
export GOCACHE=${GOCACHE:-$(go env GOCACHE)}
V=$PWD
./build.sh || exit 2
if [ "$tier" = thorough ]; then budget=${VP_BUDGET:-720}; else budget=${VP_BUDGET:-150}; fi
mkdir -p evidence replays
exec ./.build/vpengine -prop "$prop" -tier "$tier" -harness "$V/harness" \
  -native "$V/.build/native" -cli "$V/.build/parse" -bounds "$V/bounds.json" \
  -known "$V/known-findings.txt" -evidence "$V/evidence/$prop.json" \
  -replays "$V/replays" -budget "$budget" $VP_FLAGS
