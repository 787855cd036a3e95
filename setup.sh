#!/bin/bash
# Prewarms the build caches and builds the instrumented binary for the unchanged tree.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, "tools")
import zvbuild
w = tempfile.mkdtemp()
try:
    print(zvbuild.build(w)[1])
finally:
    shutil.rmtree(w)
P
