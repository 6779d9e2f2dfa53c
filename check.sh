#!/bin/bash
# check.sh ID [quick|thorough]: decide one property against /repo's working tree
PROP="$1"
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
shift; [ $# -gt 0 ] && shift
exec /opt/venv/bin/python -m vf.run "$PROP" "$@"
