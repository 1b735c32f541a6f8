#!/bin/bash
# catch.sh ID [PROP...] : run the quick checks of the properties (default: the bug's own) on /repo with the bug applied
ID=$1; D=${VROOT:-/verif}/seeded/$ID; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
case $P in R*|V*|H*) B=b3 T=target3/release/dst3 ;; *) B=b T=target/release/dst ;; esac
git -C ${REPO:-/repo} apply $D/patch.diff || exit 1
trap 'git -C ${REPO:-/repo} checkout -q -- .' EXIT
${VROOT:-/verif}/tools/$B.sh
for p in $P; do
  timeout 900 ${VROOT:-/verif}/build/$T check --property $p --tier quick --secs ${SECS:-40} --seed ${SEED:-1} --root /tmp/vv > /tmp/bugs/$ID.$p.out 2>&1; rc=$?
  echo "$ID $p rc=$rc $(grep -m1 '^found' /tmp/bugs/$ID.$p.out | cut -c1-200)"
done
