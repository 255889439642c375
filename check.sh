#!/bin/bash
# check.sh PROPERTY [quick|thorough]: proves the contracts of one property over /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"
bash "$here/setup.sh" || { echo "engine build failed"; exit 2; }
. /opt/vp/env.sh >/dev/null 2>&1 || true
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
exec "$here/.build/vfe" -repo /repo -verif "$here" -prop "$prop" -tier "$tier"
