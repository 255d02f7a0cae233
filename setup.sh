#!/bin/bash
# Builds everything the checks need from /repo's working tree (checks rebuild it themselves when it is missing or stale).
cd "$(dirname "$0")" && exec python3 -B -c '
import sys
sys.path.insert(0, ".")
from vf import core
core.build_repo()
core.setup_harnesses()
print("setup done")
'
