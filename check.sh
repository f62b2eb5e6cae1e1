#!/bin/bash
# check.sh <property>: verify one property of /repo's current tree
cd "$(dirname "$0")" || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
./setup.sh || exit 2
GVC_VERIF="$PWD" exec bin/gvc check "$1"
