#!/bin/bash
# developer helper: run.sh <PROP> over seeds
g=$1; p=$2; shift 2
for s in "$@"; do VERIF_SEED=$s /verif/harness/target/debug/$g $p 2>/dev/null || exit 1; done
