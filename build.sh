#!/bin/bash
# Builds the verifier from its committed source into /verif/build/govc.
cd "$(dirname "$0")" || exit 2
mkdir -p build
cd govc && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTELEMETRY=off go build -o ../build/govc . || exit 2
