#!/bin/bash
# runs the stable tests of /repo's working tree and says which of them fail
cd /repo && bash /opt/vp/build.sh > /tmp/cmp_build.log 2>&1 || { tail -5 /tmp/cmp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/cmp.json > /dev/null 2>&1
python3 -c "
import json
o=json.load(open('/tmp/cmp.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in o['passed']]
print('stable failing:', bad)"
