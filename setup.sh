#!/bin/bash
# builds the SSA exporter and warms the build cache of the oracle
here=$(dirname "$(realpath "$0")")
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
set -e
mkdir -p "$here/.build"
(cd "$here/ssadump" && go build -o "$here/.build/ssadump" .)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here/replay/go.mod" "$here/replay/go.sum" "$d"/
(cd "$here/replay" && go build -modfile "$d/go.mod" -o "$d/replay" .)
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
