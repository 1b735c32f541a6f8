#!/bin/bash
# newbug.sh ID PROP NEEDS BREAKS : package the diff of /tmp/bugs/repo as a seeded bug (main.rs, Cargo.toml.in in /tmp/bugs/ID)
set -e
ID=$1; D=${VROOT:-/verif}/seeded/$ID
mkdir -p $D
git -C /tmp/bugs/repo diff > $D/patch.diff
cp ${VROOT:-/verif}/tools/demo_template.sh $D/demo.sh; chmod +x $D/demo.sh
cp ${VROOT:-/verif}/tools/mkview.py $D/view.py
cp /tmp/bugs/$ID/main.rs /tmp/bugs/$ID/Cargo.toml.in $D/
cp ${VROOT:-/verif}/sim/Cargo.lock $D/Cargo.lock
python3 - "$@" <<'P'
import json,sys,os
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"{os.environ.get('VROOT','/verif')}/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
