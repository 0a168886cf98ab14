#!/bin/bash
# usage: trybug.sh <seeded id>|all [check ids...]
# Validates a planted bug in a scratch copy of /repo and runs checks against it.
# Default check: the one named in meta.json.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/trybug; mkdir -p $W
id=$1; shift
S=$ROOT/seeded/$id
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
R=$W/repo
if [ ! -d $R ]; then mkdir -p $R; (cd /repo && git archive HEAD | tar x -C $R); (cd $R && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x); sed "s#/repo#$R#g" /opt/vp/build.sh > $W/build.sh; sed "s#/repo#$R#g" /opt/vp/test.sh > $W/test.sh; fi
git -C $R checkout -q -- .
diff -rq --exclude=.git --exclude=_build /repo $R >/dev/null || { (cd /repo && git archive HEAD | tar x -C $R); git -C $R add -A; git -C $R -c user.name=x -c user.email=x@x commit -qm y; }
log() { echo "[$id] $*"; }
if [ -z "$SKIP_BASE" ]; then
bash $W/build.sh >$W/build.log 2>&1 || { log "BASE BUILD FAILED"; exit 1; }
(cd $R && timeout 300 bash $S/demo.sh >$W/demo0.log 2>&1) || { log "DEMO FAILS ON BASE"; tail -5 $W/demo0.log; exit 1; }
fi
git -C $R apply $S/patch.diff || { log "PATCH DOES NOT APPLY"; exit 1; }
bash $W/build.sh >$W/build.log 2>&1 || { log "BUILD FAILED"; grep -m5 error $W/build.log; git -C $R checkout -q -- .; exit 1; }
bash $W/test.sh $W/t.json >$W/test.log 2>&1; log "tests: $(tail -1 $W/test.log)"
(cd $R && timeout 300 bash $S/demo.sh >$W/demo1.log 2>&1); rc=$?; log "demo with patch: rc=$rc $(tail -1 $W/demo1.log)"
[ $rc = 0 ] && log "DEMO DOES NOT FAIL"
for c in $checks; do
	s=$(date +%s)
	VERIF_REPO=$R VERIF_BUILD=$W/build VERIF_OUT=$W VERIF_SEED=${VERIF_SEED:-1} timeout 900 $ROOT/run.sh $c >$W/check-$c.log 2>&1; rc=$?
	log "$c: rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $W/check-$c.log)"
done
git -C $R checkout -q -- .
