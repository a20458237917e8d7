#!/bin/bash
# Builds /repo and compares its tests with the baseline.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print("stable", len(b['stable']), "missing", m); raise SystemExit(bool(m))
P
