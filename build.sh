#!/bin/bash
# Builds the analyser from /verif/checker with the vendored dependencies.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
mkdir -p "$here/.bin"
cd "$here/checker" && exec go build -o "$here/.bin/checker" .
