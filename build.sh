#!/bin/bash
# Builds the harness from /repo's working tree. White-box and single-function monitors are compiled in where the items
# they name exist: a file of theirs that does not compile is left out, and the black-box monitors still decide.
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/build/target Ankr_Api_Key=k Llama_Api_Key=k
cd /verif || exit 3
python3 scripts/mirror.py /repo /verif/build/ws || exit 3
cd harness || exit 3
f="wb u_num u_addr u_logs u_gas u_rpcs u_scripts u_tx u_events"
for i in 1 2 3 4 5 6 7 8; do
  cargo build --offline --message-format short --features "$f" >/verif/build/cargo.log 2>&1 && { cat /verif/build/cargo.log; exit 0; }
  cat /verif/build/cargo.log
  g=""
  for x in $f; do
    case $x in wb) p=src/wb.rs;; u_*) p=src/units/${x#u_}.rs;; esac
    grep -qE "^(.*/)?$p:[0-9]+:[0-9]+: error" /verif/build/cargo.log || g="$g $x"
  done
  g=$(echo $g)
  [ "$g" = "$f" ] && exit 1
  echo "---- without: $f -> $g"
  f=$g
done
exit 1
