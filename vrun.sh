#!/bin/bash
# dev helper: extract + verify. usage: vrun.sh [verus args]
/tmp/x/vt/debug/vex ${REPO:-/repo} /verif/contracts /tmp/x/ov && cd /tmp/x/ov && python3 -c "
import json;d=json.load(open('extraction.json'));print('missing',d['missing']);print('uncontracted',[u['fn'] for u in d['uncontracted']])
print([f['fn']+str(f['problems']) for f in d['functions'] if f['problems']])" && verus --crate-type lib src/lib.rs "$@" 2>&1 | grep -v "^ *$"
