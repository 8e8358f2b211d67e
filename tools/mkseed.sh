#!/bin/bash
# Usage: mkseed.sh ID PROPERTY PKGDIR TESTFILE NEEDS BREAKS -- turns the edits in /repo's working tree into a planted bug.
set -e
trap "git -C /repo checkout -q -- ." EXIT
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no edits"; exit 1; }
cp "$4" "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<D
#!/bin/bash
# Exits 0 when the behaviour is intact and 1 when it is broken.
. /opt/vp/env.sh
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
cp "\$here/demo_test.go.txt" "\$tmp/zz_demo_test.go"
printf '{"Replace":{"%s/$3/zz_demo_test.go":"%s/zz_demo_test.go"}}' "\$PWD" "\$tmp" > "\$tmp/overlay.json"
go test -overlay "\$tmp/overlay.json" -run TestDemo -count=1 ./$3
D
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$2" "$5" "$6" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
. /opt/vp/env.sh
cd /repo
bash "$d/demo.sh" >/tmp/demo.out 2>&1 && { echo "$1: demo passes with the patch"; cat /tmp/demo.out; git checkout -- .; exit 1; }
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$1: build fails"; git checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('tests missing:', miss)
import sys
sys.exit(1 if miss else 0)
P
git checkout -- .
bash "$d/demo.sh" >/tmp/demo.out 2>&1 || { echo "$1: demo fails unpatched"; cat /tmp/demo.out; exit 1; }
echo "$1 ok"
