#!/bin/bash
# baseline.sh  builds /repo and says which stable tests fail (none: prints OK)
bash /opt/vp/build.sh >/tmp/vb.$$ 2>&1 || { cat /tmp/vb.$$; exit 1; }
bash /opt/vp/test.sh /tmp/vo.$$ >/dev/null 2>&1
python3 - /tmp/vo.$$ <<'E'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open(sys.argv[1]))
m=[t for t in b if t not in o['passed']]
print('OK' if not m else 'MISSING '+str(m)); sys.exit(bool(m))
E
r=$?; rm -f /tmp/vb.$$ /tmp/vo.$$; exit $r
