#!/bin/bash
# check.sh <property> [tier]: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
exec python3 -m jbk.check "$1" "${2:-${VERIF_TIER:-quick}}"
