#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]      (run in /verif)
cd "$(dirname "$0")"
exec python3 py/main.py "$1" "${2:-${VERIF_TIER:-quick}}"
