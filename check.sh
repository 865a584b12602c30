#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Decides one property by symbolic execution of /repo's current source.
cd "$(dirname "$0")" || exit 2
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
# rebuild the engine when it is missing or older than its sources
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -name '*.go' -print -quit)" ]; then
	./build.sh || exit 2
fi
# the SWIG-generated binding is ignored by git; generate it where the build expects it
if [ ! -f /repo/consensus/qkchash/native/native.go ]; then
	make -C /repo/consensus/qkchash/native all >/dev/null 2>&1
fi
exec bin/gosym -repo /repo -verif /verif -prop "$PROP" -tier "$TIER"
