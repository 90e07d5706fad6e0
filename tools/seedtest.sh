#!/bin/bash
# tools/seedtest.sh ID... : judge planted bugs in a private mount namespace where copies stand in for /repo and /verif.
# Prints one line per bug: tests, demo on the clean tree, demo with the patch, and what the property's quick check says.
# ALSO="C01 C02" runs further checks with the patch. NOTEST=1 skips the test suite.
V=/verif
one() {
  id=$1; w=$(mktemp -d /tmp/seedtest.XXXXXX); mkdir $w/v
  cp -a /repo $w/repo; cp -a $V/check $V/setup.sh $V/vlib $V/known_findings.json $V/properties.jsonl $w/v/
  cp -a $V/seeded/$id $w/seed
  W=$w ID=$id unshare -Urm bash -c '
    mount --bind $W/repo /repo; mount --bind $W/v /verif; cd /repo
    P=$(python3 -c "import json;print(json.load(open(\"$W/seed/meta.json\"))[\"property\"])")
    timeout 300 bash $W/seed/demo.sh >$W/d0 2>&1; d0=$?
    git apply $W/seed/patch.diff || { echo "$ID: patch does not apply"; exit; }
    bash /opt/vp/build.sh >$W/b 2>&1 || { echo "$ID: does not build"; tail -3 $W/b; exit; }
    t=skipped
    if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1
      t=$(python3 -c "
import json
o=json.load(open(\"$W/o.json\"));b=json.load(open(\"/opt/vp/BASELINE.json\"));m=set(b[\"stable\"])-set(o[\"passed\"]);print(\"broken:%s\"%sorted(m)[:3] if m else \"ok\")"); fi
    timeout 300 bash $W/seed/demo.sh >$W/d1 2>&1; d1=$?
    out="$ID [$P] tests=$t demo=$d0/$d1"
    for c in $P $ALSO; do
      s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick ./../verif/check $c >$W/c 2>&1; r=$?
      out="$out $c:exit$r($(grep -c ^VIOLATION $W/c) viol, $(($(date +%s)-s))s)"
      [ $r = 1 ] || out="$out <<< NOT CAUGHT"
      grep -A1 ^VIOLATION $W/c | grep "^  " | cut -c1-140 | sort -u | head -${SHOW:-2} >$W/m
    done
    echo "$out"; cat $W/m; [ $d0 = 0 ] || tail -3 $W/d0
    if [ $d1 = 0 ]; then echo "  DEMO DOES NOT FAIL"; cat $W/d1 | tail -3; fi
  '
  rm -rf "$w"
}
for i in "$@"; do one $i; done
