#!/bin/bash
# run with cwd = repository root, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -w -I"$PWD/_build/libipt/include" "$D/demo.c" -o "$T/demo" -L"$PWD/_build/lib" -lipt -Wl,-rpath,"$PWD/_build/lib" || exit 2
timeout 60 "$T/demo"
