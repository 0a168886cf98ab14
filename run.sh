#!/bin/bash
# usage: run.sh <property id> [options of the harness]
# Builds the harness of that property against /repo and runs it.
# VERIF_REPO, VERIF_BUILD and VERIF_OUT redirect it to a scratch copy (tools/trybug.sh).
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT" || exit 2
ID=$1; shift
id=$(echo "$ID" | tr 'C' 'c')
V=asan
case $ID in C22) V=tsan ;; esac
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$ROOT/build}
O=${VERIF_OUT:-$ROOT}
mkdir -p "$O/evidence" "$O/out"
tools/buildlibs.sh $V || { echo "cannot build /repo ($V)" >&2; exit 2; }
( flock 8; make -s V=$V REPO="$REPO" B="$B" "$B/$V/harness/$id" >"$O/out/$id-make.log" 2>&1 ) 8>"$B/.lock-make-$V" || { cat "$O/out/$id-make.log" >&2; exit 2; }
export ASAN_OPTIONS=detect_leaks=1:print_summary=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096
export UBSAN_OPTIONS=print_stacktrace=1:exitcode=98
export TSAN_OPTIONS=exitcode=97:halt_on_error=1:second_deadlock_stack=1
if [ "$ID" = C04 ]; then
	tools/buildlibs.sh msan || { echo "cannot build /repo (msan)" >&2; exit 2; }
	( flock 8; make -s V=msan REPO="$REPO" B="$B" "$B/msan/harness/drvmain" >"$O/out/$id-make.log" 2>&1 ) 8>"$B/.lock-make-msan" || { cat "$O/out/$id-make.log" >&2; exit 2; }
	export VERIF_MSAN=$B/msan/harness/drvmain MSAN_OPTIONS=exitcode=96
fi
export VERIF_BIN=$B/$V/bin
EV=()
case " $* " in *" --replay "*) ;; *) EV=(--evidence "$O/evidence/$ID.json" --out "$O/out" --known "$ROOT/known_findings.txt") ;; esac
case "$ID ${VERIF_TIER:-} $* " in
*--replay*|*--only*|*--cases*|*--quick*) ;;
C04\ thorough*|C04\ *--thorough*)
	tools/buildlibs.sh fuzz || exit 2
	( flock 8; make -s V=fuzz REPO="$REPO" B="$B" "$B/fuzz/harness/drvfuzz" >"$O/out/$id-make.log" 2>&1 ) 8>"$B/.lock-make-fuzz" || { cat "$O/out/$id-make.log" >&2; exit 2; }
	"$B/$V/harness/$id" "${EV[@]}" "$@"; rc=$?
	[ $rc = 0 ] || exit $rc
	exec python3 tools/fuzz.py "$B/$V/harness/$id" "$B/fuzz/harness/drvfuzz" "$O/out" "$O/evidence/$ID.json" "${FUZZ_SECONDS:-600}" ;;
esac
exec "$B/$V/harness/$id" "${EV[@]}" "$@"
