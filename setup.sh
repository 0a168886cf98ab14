#!/bin/bash
# Builds the libraries and all harnesses.
cd "$(dirname "$0")" || exit 1
set -e
tools/buildlibs.sh asan
make -s -j8 V=asan $(ls src/c*.cpp | grep -v c22 | sed 's|src/\(.*\).cpp|'"$PWD"'/build/asan/harness/\1|')
tools/buildlibs.sh msan
tools/buildlibs.sh tsan
make -s -j8 V=tsan "$PWD/build/tsan/harness/c22"
make -s V=msan "$PWD/build/msan/harness/drvmain"
