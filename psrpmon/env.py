"""Where the code under test is, and importing it (from the working tree, never from a cache)."""

import os
import sys

REPO = os.environ.get("PSRPMON_REPO", "/repo")
SRC = os.path.realpath(os.path.join(REPO, "src"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
sys.path.insert(0, SRC)

from . import keys  # noqa: E402,F401  (has to see the key generator before the library does)

import psrpcore  # noqa: E402

if not os.path.realpath(psrpcore.__file__).startswith(SRC):
    raise SystemExit("psrpcore was imported from %s and not from %s" % (psrpcore.__file__, SRC))

from . import lits  # noqa: E402

lits.load(SRC)
