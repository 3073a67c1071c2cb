#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
bin="$here/bin/wv"
if ! bash "$here/build.sh"; then
	echo "cannot build the analyser"
	exit 2
fi
exec "$bin" -p "$1" -tier "${2:-quick}" -verif "$here" -repo "${VERIF_REPO:-/repo}"
