#!/bin/bash
# Builds the MIR fact dumper and warms the fact databases (offline).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence .build
python3 - <<'PY'
import sys
sys.dont_write_bytecode = True
from vf import facts
for g in ["base", "core"]:
    try:
        f = facts.Facts(g)
        print(g, len(f.fns), "functions", (f.errors or "")[:300])
    except facts.FactError as e:
        print(g, "failed:", e); sys.exit(1)
PY
