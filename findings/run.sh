#!/bin/bash
# run.sh [repo]: run the defect demonstrations against a tree (default /repo)
. /opt/vp/env.sh
repo=${1:-/repo}; here=$(dirname "$(realpath "$0")")
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
echo "{\"Replace\":{\"$repo/zz_defects_test.go\":\"$here/defects_test.go\"}}" > "$ov"
cd "$repo" && go test -vet=off -count=1 -overlay "$ov" -run 'TestErrorForgotten|TestImperativeErrorDropped|TestAttributeOrder|TestSharedAttributeMutated|TestNestedConditions|TestYieldStaleData|TestUnitsClobberArgs|TestGetPanics|TestStringerUnescaped|TestNilNodes|TestGenerateCode|TestNilFuncAny|TestStartDelimiters' .
