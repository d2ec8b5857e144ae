#!/bin/bash
# run.sh PROPERTY [quick|thorough]   - runs one check (see DESIGN.md)
# run.sh --setup                     - nothing to build ahead: parses the specifications
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
if [ "$1" = "--setup" ]; then
    exec python3 -c 'import sys; sys.path.insert(0, "."); from vt import core; core.check_specs()'
fi
exec python3 -c 'import sys; sys.path.insert(0, "."); from vt import core; sys.exit(core.main(sys.argv))' "$@"
