#!/bin/bash
# tryplant.sh <id>...: apply each planted change to /repo, build, run the tests, its demo and its property's check, then undo
if [ -z "$INNS" ]; then
  w=$(mktemp -d /tmp/plantXXXXXX); mkdir $w/r $w/v; cp -a /repo/. $w/r/; cp -a /verif/. $w/v/
  INNS=1 unshare -m bash -c 'mount --make-rprivate /; mount --bind '$w/r' /repo; mount --bind '$w/v' /verif; exec bash /verif/tools/tryplant.sh "$@"' x "$@"
  rm -rf "$w"; exit
fi
cd /repo; git checkout -q -- .
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/pl_$$_b.log 2>&1 || echo "$id: BUILD FAILED"
  [ -n "$NOTEST" ] || bash /opt/vp/test.sh /tmp/pl_o.json >/dev/null 2>&1
  t=$([ -n "$NOTEST" ] && echo skipped || python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/pl_o.json'))['passed']);print(len(b-o),sorted(b-o)[:3])")
  bash $d/demo.sh >/tmp/pl_$$_d.log 2>&1; dr=$?
  (cd /verif; timeout 900 python3-vt check.py $p quick >/tmp/c_$id.log 2>&1; echo $? >/tmp/pl_$$.rc)
  echo "$id $p: tests lost $t, demo $dr, check $(cat /tmp/pl_$$.rc) $(grep -A1 VIOLATION /tmp/c_$id.log | sed -n 2p | cut -c1-150)"
  git checkout -q -- .
done
