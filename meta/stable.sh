#!/bin/bash
# stable.sh: the repository's stable tests on /repo's working tree
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "build failed"; o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
ps=set(t.get('passed') or t.get('pass'))
print("stable tests failing:", sorted(set(b['stable'])-ps)[:5], "of", len(b['stable']))
P
rm -f $o
