#!/bin/bash
# Nothing is built: the checks import the package from /repo's working tree. This only verifies that they can.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "
from psrpmon import env
import psrpcore
assert psrpcore.__file__.startswith(env.SRC), psrpcore.__file__
print('using', psrpcore.__file__)"
