#!/bin/bash
# try_seed.sh ID...: each seed's demonstration on the unchanged tree and with its change, and the repository's build and tests, in scratch clones.
V=$(cd "$(dirname "$0")/.." && pwd)
T=/tmp/tryseed; mkdir -p $T
[ -d $T/clean ] || git clone -q /repo $T/clean
git -C $T/clean pull -q
for id in "$@"; do
  bash $V/scripts/pack_seed.sh $id
  (cd $T/clean && git checkout -q -- . && DEMO_TARGET=$T/target bash $V/seeded/$id/demo.sh >$T/$id.clean 2>&1); a=$?
  git -C $T/clean apply $V/seeded/$id/patch.diff || echo "$id: patch does not apply"
  (cd $T/clean && DEMO_TARGET=$T/target bash $V/seeded/$id/demo.sh >$T/$id.bug 2>&1); b=$?
  git -C $T/clean checkout -q -- .
  echo "$id clean=$a bug=$b $(grep -h 'panicked' -A1 $T/$id.bug | tail -1 | cut -c1-140)"
done
