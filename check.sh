#!/bin/bash
# check.sh <property> [tier]: builds the engine if needed and decides one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then source /opt/vp/env.sh; fi
cd "$here/engine" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$here/bin/engine" . || exit 2
cd "$here" || exit 2
[ "$1" = setup ] && exit 0
exec "$here/bin/engine" -p "$1" -tier "${2:-quick}"
