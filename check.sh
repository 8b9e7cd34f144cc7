#!/bin/bash
# check.sh <property id> [tier]: builds the analyser if needed and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/setup.sh" >&2 || { echo "the analyser does not build" >&2; exit 2; }
export VERIF_DIR="$here"
cd /repo || exit 2
exec "$here/bin/sqlgencheck" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
