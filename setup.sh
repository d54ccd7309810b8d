#!/bin/bash
# Builds the engine (a go/ssa based symbolic executor) into .build/.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .build
stamp=$(cat engine/*.go engine/go.mod | sha256sum | cut -c1-16)
if [ -x .build/engine ] && [ "$(cat .build/stamp 2>/dev/null)" = "$stamp" ]; then exit 0; fi
(cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../.build/engine.$$ .) && mv .build/engine.$$ .build/engine && echo "$stamp" > .build/stamp
