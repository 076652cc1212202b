#!/bin/bash
# check.sh <property> [quick|thorough]: builds the engine when needed and decides one property.
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
mkdir -p bin
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -print -quit)" ]; then
  (cd engine && go build -o ../bin/engine .) || exit 2
fi
[ "$1" = build ] && exit 0
exec bin/engine check "$1" "${2:-quick}"
