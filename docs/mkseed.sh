#!/bin/bash
# mkseed.sh ID PROPERTY "sources" "cflags" "needs" "what it breaks"
# The uncommitted diff of /repo becomes seeded/ID/patch.diff; seeded/ID/demo.cpp must exist.
# Verifies: builds and passes tests with the patch, demo fails with it and passes without.
id=$1; prop=$2; src=$3; cfl=$4
d=/verif/seeded/$id
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
mkdir -p $d/stubs && cp -r /verif/stubs/. $d/stubs/
cat > $d/demo.sh <<X
#!/bin/bash
# exit 0: behaves as the property says; non-zero: broken.  Run in the repository.
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$PWD
tmp=\$(mktemp -d) || exit 1
trap 'rm -rf "\$tmp"' EXIT
inc="-I\$here/stubs"
for i in "\$repo"/ecl_*/include; do inc="\$inc -I\$i"; done
src=""
for s in $src; do src="\$src \$repo/\$s"; done
g++ -std=gnu++14 -w -O1 -include unistd.h $cfl \$inc -I/usr/include/eigen3 "\$here/demo.cpp" \$src -o "\$tmp/demo" -lpthread -lrt || exit 1
cd "\$tmp" && timeout 60 ./demo
X
chmod +x $d/demo.sh
python3 - "$d" "$prop" "$5" "$6" <<'X'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
X
ok=1
bash /opt/vp/build.sh >/tmp/mkseed.log 2>&1 || { echo "BUILD FAILS"; ok=0; }
bash /opt/vp/test.sh /tmp/mkseed.json >/tmp/mkseed.log 2>&1
python3 - <<'X' || ok=0
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/mkseed.json'))
def names(x):
    for k in ("passed","stable","tests","pass"):
        if isinstance(x,dict) and k in x: x=x[k]
    return set(x) if not isinstance(x,dict) else set(k for k,v in x.items() if v in ("pass","passed",True))
m=names(b)-names(r)
if m: print("TESTS FAIL",sorted(m)); raise SystemExit(1)
X
(cd /repo && bash $d/demo.sh >/tmp/mkseed.out 2>&1); rc=$?
[ $rc -ne 0 ] || { echo "DEMO PASSES WITH PATCH"; ok=0; }
echo "with patch: rc=$rc $(tail -c 200 /tmp/mkseed.out)"
r=0; (cd /verif && timeout 900 python3 check.py $prop >/tmp/mkseed.chk 2>&1) || r=$?
grep -q "^VIOLATION property=$prop" /tmp/mkseed.chk && echo "CAUGHT by $prop ($r)" || echo "MISSED by $prop ($r)"
git -C /repo checkout -- .
(cd /repo && bash $d/demo.sh >/tmp/mkseed.out 2>&1); rc=$?
[ $rc -eq 0 ] || { echo "DEMO FAILS WITHOUT PATCH: $(tail -c 300 /tmp/mkseed.out)"; ok=0; }
bash /opt/vp/build.sh >/dev/null 2>&1
[ $ok = 1 ] && echo "seed $id OK" || echo "seed $id BAD"
