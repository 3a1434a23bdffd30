#!/bin/bash
# check.sh <property>: decides one property from the source in /repo.
cd "$(dirname "$0")" || exit 3
if [ ! -x bin/vsa ] || [ -n "$(find analyzer -newer bin/vsa -name '*.go' -not -path '*/vendor/*' -print -quit)" ]; then
	./build.sh || exit 3
fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
exec bin/vsa -repo /repo -verif "$PWD" -property "$1"
