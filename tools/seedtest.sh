#!/bin/bash
# tools/seedtest.sh ID...  : confirms a planted bug in a private copy bind-mounted over /repo
# (patch applies, demo passes before/fails after, stable tests pass, own check reports it)
cd "$(dirname "$0")/.."
for id in "$@"; do
  D=/tmp/seed-$id; rm -rf "$D"; cp -a /repo "$D"
  unshare -Urm bash -c '
    id=$1; D=$2; V=/verif/seeded/$id
    mount --bind $D /repo
    cd /repo; git checkout -q -- .
    prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))[\"property\"])" $V/meta.json)
    L=/tmp/seedlog-$id; : > $L
    if [ -z "$SKIPDEMO" ]; then
    timeout 300 bash $V/demo.sh >>$L 2>&1; d0=$?
    fi
    git apply $V/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
    if [ -z "$SKIPDEMO" ]; then
    timeout 300 bash $V/demo.sh >>$L 2>&1; d1=$?
    fi
    t="-"
    if [ -z "$SKIPTEST" ]; then
      bash /opt/vp/test.sh /tmp/seedout-$id.json >>$L 2>&1
      t=$(python3 -c "
import json,sys
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);o=json.load(open(sys.argv[1]));p=set(o[\"passed\"])
m=sorted(b-p);print(\"ok\" if not m else \"FAILS \"+\";\".join(m[:4]))" /tmp/seedout-$id.json)
    fi
    c="-"
    if [ -f checks/$prop/check.json ] || true; then
      cd /verif; ./run.py $prop >$L.check 2>&1; c=$?; echo $c > $L.rc
      v=$(grep -c "^VIOLATION property=$prop " $L.check)
    fi
    echo "$id ($prop): demo before=$d0 after=$d1 tests=$t check_exit=$c violations=$v :: $(grep -A1 -m1 ^VIOLATION $L.check | tail -1 | cut -c1-160)"
  ' _ $id $D
  python3 tools/seedrec.py $id /tmp/seedlog-$id.check $(cat /tmp/seedlog-$id.rc 2>/dev/null)
  rm -rf "$D" /tmp/seedout-$id.json
done
