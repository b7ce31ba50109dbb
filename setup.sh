#!/bin/bash
# builds the extraction tool and the native harness once, so that checks start faster
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, ".")
import check, os
os.makedirs(check.BUILD, exist_ok=True)
ok = check.build_vex() is not None
exe, why = check.build_native(True)
for prop in check.WRAP:
    ok = ok and check.build_native(True, "wrap")[0] is not None
sys.exit(0 if ok and exe else (sys.stderr.write(why) and 1 or 1))
P
