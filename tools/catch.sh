#!/bin/bash
# catch.sh ID...: does the check of each planted bug report it?
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  rm -rf /tmp/catchw; cp -a /repo /tmp/catchw
  (cd /tmp/catchw && git apply /verif/seeded/$i/patch.diff) || echo NOAPPLY
  OCR_REPO=/tmp/catchw timeout 900 python3 run.py $p 2>&1 | cut -c1-160 | tail -2 | tr '\n' '|'; echo " <- $i $p rc=${PIPESTATUS[0]}"
done
rm -rf /tmp/catchw
