#!/bin/bash
# Builds the engine, and the native replay program and the CLI from /repo's
# current working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p .build
tools/genreg.sh || exit 2
(cd engine && go build -o ../.build/vpengine .) || exit 2
(cd harness && go build -o ../.build/native ./cmd/native && go build -o ../.build/parse github.com/lyraproj/puppet-parser/parse) || exit 2
