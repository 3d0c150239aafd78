#!/bin/bash
# Builds the engine and warms the build cache for the native replayer.
set -u
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p .bin
(cd engine && go build -o ../.bin/gosym .) || exit 2
(cd harness && go vet ./sym) || exit 2
