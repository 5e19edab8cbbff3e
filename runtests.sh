#!/bin/bash
# run the repo's tests, fail if any stable baseline test fails
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',miss)
P
