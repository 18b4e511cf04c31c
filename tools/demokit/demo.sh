#!/bin/bash
# Builds the store from the current tree (cwd) together with demo.cpp and runs it. 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d /tmp/vpdemob.XXXXXX); trap 'rm -rf "$W"' EXIT
FL="-O1 -std=c++11 -fsigned-char -w -DNDEBUG -DSERVER=1 -DSPARQL=1 -DML=1 -include $D/kognac_standin/prelude.h -I$D -I$D/kognac_standin -Iinclude -Irdf3x/include -Irapidjson/include -Isnap/snap-core -Isnap/glib-core -Isnap"
SRC=$(ls src/trident/kb/*.cpp src/trident/tree/*.cpp src/trident/binarytables/*.cpp src/trident/iterators/*.cpp src/trident/files/*.cpp src/trident/model/*.cpp src/trident/utils/parallel.cpp src/trident/utils/tridentutils.cpp src/trident/utils/json.cpp)
for f in $SRC $D/demo.cpp $D/shim.cpp $D/kognac_standin/kognac.cpp; do echo "$f"; done | xargs -P 8 -I{} sh -c "g++ $FL -c {} -o $W/\$(echo {} | tr / _).o" || { echo "does not compile"; exit 2; }
g++ $W/*.o -o $W/demo -rdynamic -llz4 -lz -lpthread -ldl || exit 2
timeout 200 $W/demo
