#!/bin/bash
# builds the symbolic executor into $1
cd /verif/symex && GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o "$1" .
