#!/bin/bash
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p bin evidence
cd gov && go build -o ../bin/gov . && ../bin/gov -repo /repo -specs ../contracts list >/dev/null
