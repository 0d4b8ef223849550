#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the verifier, then decides one property
# against /repo's current working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p bin evidence
(cd gov && go build -o ../bin/gov .) || exit 2
[ -n "$2" ] && export VERIF_TIER=$2
exec bin/gov -repo "${VERIF_REPO:-/repo}" -specs contracts check "$1"
