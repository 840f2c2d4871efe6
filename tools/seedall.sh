#!/bin/bash
# seedall.sh SPEC...: plant several bugs, four at a time, output only
cd /verif; printf '%s\n' "$@" | xargs -P 5 -I{} sh -c 'b=$(basename {} .py); o=$(python3 tools/mkseed.py $b < {} 2>&1 | tail -25); echo "$o"'
