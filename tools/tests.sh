#!/bin/bash
# developer helper: run the repository's tests and compare with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'E'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
m=b-set(t['passed']); print('baseline tests missing:',sorted(m)) if m else print('tests ok',len(b))
raise SystemExit(1 if m else 0)
E
