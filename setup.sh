#!/bin/bash
# Builds everything once; every check builds what it needs by itself as well.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import os, sys
sys.path.insert(0, os.getcwd())
from vlib import build, plan
build.harness([b for b in plan.BINS if os.path.exists("harness/src/bin/%s.rs" % b)])
build.cli()
if os.path.exists("vlib/vchild.c"):
    build.child()
P
