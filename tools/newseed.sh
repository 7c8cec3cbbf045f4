#!/bin/bash
# newseed.sh ID PROPERTY NEEDS WHAT < demo.cpp : record /repo's uncommitted change as a planted bug, and undo it
set -e
D=/verif/seeded/$1; mkdir -p "$D"
git -C ${SEEDREPO:-/repo} diff > "$D/patch.diff"; test -s "$D/patch.diff"
git -C ${SEEDREPO:-/repo} checkout -- .
cat > "$D/demo.cpp"
cp -r /verif/stubs "$D/stubs"
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > "$D/demo.sh" <<'S'
#!/bin/bash
# run with the repository as working directory
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
F="-std=gnu++17 -g -O0 -w -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -include cstdint -I$H/stubs -I$PWD -I$PWD/raftinc"
ls src/*.cpp | grep -v sysschedutil | xargs -P 8 -I{} sh -c "g++ $F -DLIBCOMPILE=1 -DRDTSCP=1 -c {} -o $W/\$(basename {} .cpp).o" || exit 0
g++ $F "$H/demo.cpp" $W/*.o -pthread -ldl -o "$W/demo" || exit 0
cd "$W" && timeout 60 ./demo
S
