#!/bin/bash
# Builds the verifier from its committed source and runs it.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin
(cd gocv && go build -o ../bin/gocv.$$ . && mv -f ../bin/gocv.$$ ../bin/gocv) || exit 2
exec ./bin/gocv "$@"
