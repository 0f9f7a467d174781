#!/bin/bash
# replay.sh <property> [flags]: run the executable oracle on /repo's current tree
here=$(dirname "$(realpath "$0")")
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
prop=$1; shift
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here/replay/go.mod" "$here/replay/go.sum" "$d"/
(cd "$here/replay" && go build -modfile "$d/go.mod" -o "$d/replay" .) && "$d/replay" -prop "$prop" "$@"
