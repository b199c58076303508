#!/bin/bash
# check.sh ID : decide one property on /repo's working tree (VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" && exec python3-vt mirvc/check.py "$1"
