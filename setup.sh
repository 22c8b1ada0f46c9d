#!/bin/bash
# Builds the symbolic executor once (checks build it again in their own scratch directory; this only proves that it builds and warms the build cache).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
work=$(mktemp -d /tmp/vsetup.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here"/symex/*.go "$here"/symex/go.mod "$here"/symex/go.sum "$work/src/" || exit 2
cd "$work/src" && go build -o "$work/symex" .
