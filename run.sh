#!/bin/bash
# debugging helper: run.sh PROFILE SEED COUNT -> short summary
/verif/build/target/debug/vharness explore "$@" 2>/tmp/vh_$1.txt >/dev/null; grep '^(\|^slow\|scenarios,' /tmp/vh_$1.txt | cut -c1-${W:-330}
