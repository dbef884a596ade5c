#!/bin/bash
# run.sh setup            build the engine
# run.sh <property> [..]  decide one property (tier from VERIF_TIER or 2nd argument)
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export CGO_ENABLED=0
mkdir -p evidence/replay
if [ "$1" = setup ] || [ ! -x engine/vsym ] || [ -n "$(find engine -name '*.go' -newer engine/vsym -print -quit)" ]; then
	(cd engine && go build -o vsym.tmp.$$ . && mv vsym.tmp.$$ vsym) || exit 2
	[ "$1" = setup ] && exit 0
fi
tier=${2:-${VERIF_TIER:-quick}}
exec ./engine/vsym -repo /repo -verif /verif -tier "$tier" "$1"
