#!/bin/bash
# pack_seed.sh ID...: lays the demonstration kit beside demo.rs in seeded/<ID>.
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  d=${SEEDROOT:-seeded}/$id
  rm -rf "$d/kit"; mkdir -p $d/kit/demo/src $d/kit/scripts
  cp harness/build.rs kit/Cargo.toml kit/Cargo.lock $d/kit/demo/
  cp kit/src/*.rs $d/kit/demo/src/
  cp harness/src/{canister,chain,ledger,rpc,util,wire}.rs $d/kit/demo/src/
  cp scripts/mirror.py $d/kit/scripts/
  cp -r shims $d/kit/shims
  cp kit/demo.sh $d/demo.sh; chmod +x $d/demo.sh
done
