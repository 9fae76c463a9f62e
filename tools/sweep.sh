#!/bin/bash
# sweep.sh "PIDS" "SEEDS" [args]: runs checks over several seeds, prints one line each
P="$1"; S="$2"; shift 2
for s in $S; do for p in $P; do VERIF_SEED=$s timeout 880 python3 "$(dirname "$0")/../check.py" $p "$@" 2>&1 | grep -E "^(VIOLATION|INCONC|KNOWN)| error:|$p (quick|thorough)" | cut -c1-260; done; done
