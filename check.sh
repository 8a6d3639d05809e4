#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && VERIF_TIER="$2" && export VERIF_TIER
for py in /opt/veriftools/pyvenv/bin/python3 "$(command -v python3-vt)"; do
  [ -x "$py" ] && exec "$py" engine/check.py "$1"
done
exit 2
