#!/bin/bash
# all.sh [seed] [properties...]: runs the quick checks one after another
S=${1:-1}; shift
cd "$(dirname "$0")/.."
P="$@"; [ -z "$P" ] && P=$(python3 -c "import sys;sys.path.insert(0,'sim');from props import PROPS;print(*sorted(PROPS))")
for p in $P; do VERIF_SEED=$S VERIF_TIER=quick timeout 900 python3 check.py $p quick; echo "rc $?"; done
