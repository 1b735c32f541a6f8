#!/bin/bash
# trybug.sh ID : demo on the clean and patched scratch copy, stable tests on the patched one
ID=$1; D=${VROOT:-/verif}/seeded/$ID; W=/tmp/bugs/repo
git -C $W checkout -q -- . ; (cd $W && bash $D/demo.sh >/tmp/bugs/$ID.clean 2>&1; echo "clean rc=$?")
git -C $W apply $D/patch.diff || exit 1
(cd $W && bash $D/demo.sh >/tmp/bugs/$ID.bug 2>&1; echo "bug rc=$?"); tail -3 /tmp/bugs/$ID.bug | cut -c1-300
git -C $W checkout -q -- .
