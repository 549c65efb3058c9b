#!/bin/bash
# seed.sh ID PROP "needs" "what" : takes /repo's dirty diff + /tmp/sd/ID.rs
id=$1; prop=$2; S=/verif/seeded/$id
mkdir -p $S; cp /tmp/sd/$id.rs $S/demo.rs; cp /verif/tools/seed_demo.sh $S/demo.sh; chmod +x $S/demo.sh
git -C /repo diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo EMPTY; exit 1; }
python3 - "$S" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /repo
bash /opt/vp/build.sh >/tmp/bt.log 2>&1 || { grep -A8 "^error" /tmp/bt.log|head -30; echo NOBUILD; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/bt2.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json'));b=json.load(open('/tmp/out.json'))
m=[x for x in a['stable'] if x not in set(b['passed'])]
print("TESTS", "ok" if not m else m[:10])
P
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo patched rc=$? (want nonzero)"; tail -3 /tmp/demo.out
for c in ${5:-$prop}; do /verif/lv.sh $c 2>&1 | grep -v "^KNOWN" | tail -3; done
git checkout -q -- .
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo clean rc=$? (want 0)"; tail -3 /tmp/demo.out
