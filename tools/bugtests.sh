#!/bin/bash
# bugtests.sh ID : the stable tests with the bug applied to /repo (undone afterwards)
D=${VROOT:-/verif}/seeded/$1
git -C ${REPO:-/repo} apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/bugs/$1.build 2>&1; echo "build rc=$?"
bash /opt/vp/test.sh /tmp/bugs/$1.json >/dev/null 2>&1
git -C ${REPO:-/repo} checkout -q -- .
python3 - $1 <<'P'
import json,sys,os
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open(f'/tmp/bugs/{sys.argv[1]}.json'))
st=b.get('stable') or b.get('passed') or b
st=set(st if isinstance(st,list) else st.keys())
ps=set(d['passed'])
print('stable',len(st),'missing',sorted(st-ps)[:5])
P
