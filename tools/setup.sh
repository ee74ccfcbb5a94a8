#!/bin/bash
# Build the weaver, the replay harness and twiggy itself, offline.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import check
ok = check.build_weaver() is not None
exe, why = check.build_replay()
ok = ok and exe is not None
b, why2 = check.build_twiggy()
ok = ok and b is not None
if not ok:
    print(why, why2)
sys.exit(0 if ok else 1)
PY
