#!/bin/bash
# Builds the verification engine (offline) into /verif/.build.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p .build
exec 9>.build/lock
flock 9
src=$(cat engine/*.go engine/go.mod engine/go.sum | sha256sum | cut -d' ' -f1)
if [ ! -x .build/vfe ] || [ "$(cat .build/vfe.sum 2>/dev/null)" != "$src" ]; then
  (cd engine && GOWORK=off GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local go build -o ../.build/vfe .)
  echo "$src" > .build/vfe.sum
fi
