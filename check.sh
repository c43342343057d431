#!/bin/bash
# usage: check.sh <property>   (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
exec python3 engine/run.py "$1"
