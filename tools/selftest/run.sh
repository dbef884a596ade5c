#!/bin/bash
# Compares the engine with the real standard library (both must emit the same).
set -e
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd); v=$(cd "$d/../.." && pwd)
cp "$d/stdtest.go.txt" "$v/harness/zzv/stdtest.go"
trap 'rm -f "$v/harness/zzv/stdtest.go"' EXIT
"$v/engine/vsym" -checks "$d/checks.txt" -repo /repo -verif "$v" -v -tier quick C00
