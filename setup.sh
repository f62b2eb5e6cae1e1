#!/bin/bash
cd "$(dirname "$0")" || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p bin && cd gvc && go build -o ../bin/gvc .
