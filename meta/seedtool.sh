#!/bin/bash
# seedtool.sh <seed id> [notest] [prop...] : demo on clean tree, apply, tests, demo, checks, undo
id=$1; shift; S=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
cp -r $S /tmp/seed-$id; rm -f /tmp/seed-$id/patch.diff
trap 'git -C /repo checkout -q -- .; rm -rf "/tmp/seed-'$id'"' EXIT
cd /repo
(timeout 300 bash /tmp/seed-$id/demo.sh >/tmp/seed-$id/o 2>&1); a=$?
[ $a = 0 ] || { echo "$id: demo fails on clean tree ($a)"; tail -20 /tmp/seed-$id/o; exit 1; }
git apply $S/patch.diff || { echo "$id: no apply"; exit 1; }
(timeout 300 bash /tmp/seed-$id/demo.sh >/tmp/seed-$id/o 2>&1); b=$?
[ $b != 0 ] || { echo "$id: demo passes with patch"; exit 1; }
tail -2 /tmp/seed-$id/o
if [ "$1" = notest ]; then shift; else
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/seed-$id/t.json >/dev/null 2>&1
python3 - /tmp/seed-$id/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x,k): 
    v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
st=names(b,'stable') or names(b,'passed') or names(b,'tests')
ps=names(t,'passed') or names(t,'pass')
print("stable tests failing:", sorted(st-ps)[:5], len(st))
P
fi
for p in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  cd /verif; t0=$(date +%s); timeout 900 python3 check.py $p >/tmp/seed-$id/c 2>&1; c=$?
  echo "$id: check $p exit $c in $(( $(date +%s)-t0 ))s"; grep -E "VIOLATION|mismatch" /tmp/seed-$id/c | tail -3 | cut -c1-300; [ $c -gt 1 ] && tail -5 /tmp/seed-$id/c
done
