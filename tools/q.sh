#!/bin/bash
# quick run of the given checks at the given seeds: q.sh "1 2 3" C01 C02
for p in "${@:2}"; do for s in $1; do VERIF_SEED=$s timeout 1200 python3 /verif/vf/run.py $p >/tmp/q.$p.$s 2>/dev/null; echo "$p seed $s rc $?"; grep -E "^VIOLATION|^ERROR|^C..\/[a-z_]*:|^OK" /tmp/q.$p.$s | cut -c1-350 | tail -${Q:-12}; done; done
