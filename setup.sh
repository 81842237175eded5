#!/bin/bash
# Nothing to build: the checks import /repo's working tree in place. Verify that the interpreter and libraries are there.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
exec python - <<'P'
import sys
sys.path.insert(0, "/repo")
import numpy, scipy, pandas, matplotlib, sklearn, yaml, cv2, guppy
import ais_benchmarks
assert ais_benchmarks.__file__.startswith("/repo/")
print("setup ok: python %s numpy %s scipy %s" % (sys.version.split()[0], numpy.__version__, scipy.__version__))
P
