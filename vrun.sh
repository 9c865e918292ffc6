#!/bin/bash
# developer helper: extract and verify (args: extra verus flags)
mkdir -p /tmp/vw && cd /verif/tools/vx && cargo +stable build --release --offline --target-dir /tmp/vxt -q 2>/dev/null
/tmp/vxt/release/vx ${SRC:-/repo/src} /verif/specs /tmp/vw/out.rs /tmp/vw/out.json || exit 1
python3 - <<'P'
import json
j=json.load(open('/tmp/vw/out.json'))
for f in j['functions']:
    if f['status'] in('failed','missing'): print(f['status'],f['key'],f['reason'])
for e in j['errors']: print('error',e)
P
cd /tmp/vw && verus out.rs "$@" 2>&1 | grep -v "^note: automatically chose\|^$" | head -${LINES_MAX:-90}
