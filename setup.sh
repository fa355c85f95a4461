#!/bin/bash
# Builds the verifier from the committed sources.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
mkdir -p bin evidence
cd govc && go build -o ../bin/govc .
