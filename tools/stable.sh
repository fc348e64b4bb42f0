#!/bin/bash
# rebuilds /repo and checks that every stable test still passes
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build failed"; exit 1; }
bash /opt/vp/test.sh /tmp/stable.out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/stable.out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(map(str,o['passed']));m=[t for t in map(str,b['stable']) if t not in p]
print("stable",len(b['stable']),"missing",m[:10]);sys.exit(bool(m))
P
