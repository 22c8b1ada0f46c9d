#!/bin/bash
# check.sh <property> <quick|thorough>: builds the symbolic executor and decides one property on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOWORK=off VERIF_SEED=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/vcheckrun.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
mkdir "$work/src" && cp "$here"/symex/*.go "$here"/symex/go.mod "$here"/symex/go.sum "$work/src/" || exit 2
(cd "$work/src" && go build -o "$work/symex" .) || exit 2
"$work/symex" -root "$here" -property "$1" -tier "$2"
