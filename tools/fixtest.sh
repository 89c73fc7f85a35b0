#!/bin/bash
# runs the repository's own tests on the working tree of /repo; prints what is not as in the baseline
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
tail -1 /tmp/test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
print("missing:", [x for x in b if x not in set(t['passed'])][:10])
P
