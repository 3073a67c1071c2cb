#!/bin/bash
# Builds the analyser into /verif/bin unless it is there and up to date.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p "$here/bin"
if [ -x "$here/bin/wv" ] && [ -z "$(find "$here/tool" -newer "$here/bin/wv" -print -quit)" ]; then
	exit 0
fi
cd "$here/tool" && go build -o "$here/bin/wv" .
