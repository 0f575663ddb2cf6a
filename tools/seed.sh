#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in private copies of /repo (mount namespace), then run the property's check against each.
# Prints: tests (stable tests lost with the patch), demo (exit with / without the patch), check (exit with the patch).
one() {
  id=$1; S=/verif/seeded/$id; W=/tmp/seedwork/$id; mkdir -p /tmp/seedwork; cp -a /repo $W; git -C $W checkout -q -- .
  unshare -m bash -c '
    id=$0; S=$1; W=$2; mount --bind $W /repo; mkdir -p /tmp/seedwork/$id.demo; cp -r $S/. /tmp/seedwork/$id.demo; cd /repo
    git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
    bash /opt/vp/test.sh /tmp/seedwork/$id.json >/tmp/seedwork/$id.log 2>&1
    lost=$(python3 -c "import json;b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);t=json.load(open(\"/tmp/seedwork/$id.json\"));print(len(b-set(t[\"passed\"])), sorted(b-set(t[\"passed\"]))[:3])")
    timeout 300 bash /tmp/seedwork/$id.demo/demo.sh >/tmp/seedwork/$id.d1 2>&1; d1=$?
    git checkout -q -- . ; bash /opt/vp/build.sh >>/tmp/seedwork/$id.log 2>&1
    timeout 300 bash /tmp/seedwork/$id.demo/demo.sh >/tmp/seedwork/$id.d0 2>&1; d0=$?
    echo "$id: tests lost $lost; demo with patch $d1, without $d0"
    git apply $S/patch.diff' $id $S $W
  if [ -z "$NOCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    for q in ${PROPS:-$p}; do
      t0=$SECONDS; SX_REPO=$W SX_EVDIR=/tmp/seedwork/$id.ev /verif/check.py $q quick >/tmp/seedwork/$id.$q.out 2>&1; rc=$?
      echo "$id: check $q exit $rc in $((SECONDS-t0)) s: $(grep -m1 -A1 VIOLATION /tmp/seedwork/$id.$q.out | tail -1 | cut -c1-220)"; done
  fi
  rm -rf "/tmp/seedwork/$id" "/tmp/seedwork/$id.demo" "/tmp/seedwork/$id.ev"
}
for i in "$@"; do one $i; done
