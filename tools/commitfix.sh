#!/bin/bash
# commitfix.sh MESSAGE: build + existing tests, then commit /repo's working tree as a fix
set -e
cd /repo
gofmt -l proto internal cmd
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print({k:(v if isinstance(v,int) else len(v)) for k,v in t.items()})
base=b.get('stable') or b.get('passed') or b
passed=set(t.get('passed',[]))
miss=[x for x in base if x not in passed] if isinstance(base,list) else []
assert not miss, miss
P
git status --short
git commit -qam "$1" && git log --oneline | head -1
