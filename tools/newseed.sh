#!/bin/bash
# newseed.sh <id> : makes seeded/<id>/patch.diff from the uncommitted edits in the scratch copy /tmp/seedw (git) and resets it
ROOT=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seedw
mkdir -p $ROOT/seeded/$1
git -C $W diff > $ROOT/seeded/$1/patch.diff && git -C $W checkout -q -- . && cat $ROOT/seeded/$1/patch.diff
