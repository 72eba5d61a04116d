#!/bin/bash
# bash check.sh <property> [quick|thorough]: explore one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here" || exit 2
exec "$PY" -m mc "$1" "${2:-${VERIF_TIER:-quick}}"
