#!/bin/bash
# bash replay.sh <out/Cxx-....json>: re-run one recorded violation, twice, outside the explorer
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here" || exit 2
exec "$PY" -m mc replay "$1"
