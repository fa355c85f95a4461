#!/bin/bash
# check.sh PROPERTY [TIER]: decides one property for the working tree of /repo.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
if [ ! -x bin/govc ] || [ -n "$(find govc -name '*.go' -newer bin/govc 2>/dev/null | head -1)" ]; then
  ./setup.sh || exit 2
fi
exec bin/govc prop "$1"
