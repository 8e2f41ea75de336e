#!/bin/sh
# builds everything once; the checks rebuild on their own whatever /repo's state needs
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import mcheck
mcheck.build()
try:
    import seqcheck
except ImportError:
    sys.exit(0)
seqcheck.build_all()
P
