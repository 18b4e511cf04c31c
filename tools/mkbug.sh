#!/bin/bash
# mkbug.sh ID PROPERTY: turns the scratch worktree /tmp/bug into /verif/seeded/ID (demo.cpp is written there first); verifies that the demo separates the two trees
ID=$1; D=/verif/seeded/$ID
set -e
[ -f $D/meta.json ] || { echo "no meta.json"; exit 1; }
cd /tmp/bug && git diff > $D/patch.diff && [ -s $D/patch.diff ]
echo "patch:"; git diff --stat | tail -1
if [ ! -f $D/demo.sh ]; then cp -r /verif/sim/kognac_standin $D/; cp /verif/tools/demokit/kit.h /verif/tools/demokit/shim.cpp /verif/tools/demokit/demo.sh $D/; fi
set +e
(cd /tmp/bug && bash $D/demo.sh > /tmp/demo.patched 2>&1; echo "patched tree: exit $?"; tail -2 /tmp/demo.patched)
(cd /repo && bash $D/demo.sh > /tmp/demo.clean 2>&1; echo "clean tree: exit $?"; tail -2 /tmp/demo.clean)
