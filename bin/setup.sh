#!/bin/bash
# Nothing is prebuilt: every check builds its driver from /repo. Only verify
# that the tools are there and warm the Go build cache.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
python3 - <<'PY'
import sys
sys.path.insert(0, "bin")
import vlib
c = vlib.Ctx("setup", "quick", 1)
try:
    for d in ("walletstore",):
        vlib.build(c, d)
finally:
    c.cleanup()
PY
