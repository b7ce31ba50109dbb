#!/usr/bin/env python3
"""replay.py FILE: runs the call of a replay file on the crate in /repo, with the leap-second table it names."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
f = os.path.abspath(sys.argv[1])
profile = json.load(open(f)).get("profile", "release")
exe, why = check.build_native(True, profile)
if exe is None:
    exe, why = check.build_native(False, profile)
if exe is None:
    sys.exit("the native harness does not compile:\n" + why)
os.makedirs(check.BUILD, exist_ok=True)
d = tempfile.mkdtemp(prefix="replay-", dir=check.BUILD)
rc, out, err = check.run([exe, "-", "1", "1", d, "-", "-", os.path.join(d, "r"), f], 120)
shutil.rmtree(d)
print(out, end="")
sys.exit(rc)
