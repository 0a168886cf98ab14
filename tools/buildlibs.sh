#!/bin/bash
# Builds the libraries and tools from /repo's working tree.
# usage: buildlibs.sh asan|tsan|fuzz|plain   -> $ROOT/build/<variant>
# The build tree is thrown away whenever the contents of /repo change.
set -e
ROOT=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
V=$1
case $V in
asan) CC=clang CXX=clang++ F="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=pointer-overflow,alignment" ;;
tsan) CC=clang CXX=clang++ F="-O1 -g -fno-omit-frame-pointer -fsanitize=thread" ;;
fuzz) CC=clang CXX=clang++ F="-O1 -g -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=pointer-overflow,alignment" ;;
msan) CC=clang CXX=clang++ F="-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins" ;;
cov) CC=clang CXX=clang++ F="-O0 -g -fprofile-instr-generate -fcoverage-mapping" ;;
*) echo "unknown variant $V" >&2; exit 2 ;;
esac
B=${VERIF_BUILD:-$ROOT/build}
mkdir -p "$B"
exec 9>"$B/.lock-$V"
flock 9
H=$( (cd "$REPO" && find . \( -path ./.git -o -path ./_build \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha1sum; echo "$F") | sha1sum | cut -d' ' -f1)
D=$B/$V
if [ "$(cat "$D/.hash" 2>/dev/null)" != "$H" ]; then
	if [ -d "$D" ]; then rm -rf "$D"; fi
	mkdir -p "$D"
	export CC CXX
	cmake -G Ninja -S "$REPO" -B "$D" -DCMAKE_BUILD_TYPE=None -DBUILD_SHARED_LIBS=OFF \
		-DPTDUMP=ON -DPTTC=ON -DPTSEG=ON -DPTXED=OFF -DPTUNIT=OFF -DMAN=OFF \
		-DSIDEBAND=ON -DPEVENT=ON -DFEATURE_THREADS=ON -DFEATURE_ELF=ON -DDEVBUILD=OFF \
		-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS="$F" >"$D/cmake.log" 2>&1 || { cat "$D/cmake.log" >&2; exit 2; }
	ninja -C "$D" >"$D/ninja.log" 2>&1 || { tail -50 "$D/ninja.log" >&2; exit 2; }
	echo "$H" >"$D/.hash"
fi
