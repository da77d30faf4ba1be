#!/bin/bash
# Builds the simulator and the verification element libraries from /repo's working tree.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import build
key = build.ensure_core()
import glob, os
for f in sorted(glob.glob("elements/*.cc")):
    build.elements(key, os.path.basename(f)[:-3])
P
