#!/bin/bash
# Run the repository's test suite and compare with the stable baseline.
bash /opt/vp/test.sh /tmp/basetest.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/basetest.json'))
m=b-set(o['passed'])
print('stable',len(b),'missing',sorted(m)); sys.exit(1 if m else 0)
P
