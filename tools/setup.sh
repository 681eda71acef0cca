#!/bin/bash
# builds the MIR driver, the MIR dump and the replay server (checks rebuild what is stale)
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence replays
export PYTHONDONTWRITEBYTECODE=1
python3-vt - <<'P'
import sys; sys.path.insert(0, ".")
from vf import mir, replay
print(mir.ensure_dump()); print(replay.binary())
P
