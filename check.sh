#!/bin/sh
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")"
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3-vt vp/check.py "$1"
