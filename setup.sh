#!/bin/bash
# nothing to compile: make sure that the interpreter, the package under test and the explorer import
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here" && mkdir -p evidence out && exec "$PY" -c "import mc, mc.core, mc.configs; print('ready')"
