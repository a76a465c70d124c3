#!/bin/bash
# Nothing is kept between runs: each check builds its harness from /repo. This
# makes sure the tools are there and warms the Go build cache.
cd "$(dirname "$0")" || exit 1
java -version 2>/dev/null || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
from vlib import Ctx
c = Ctx('setup')
try:
    c.build()
finally:
    c.cleanup()
P
