#!/bin/bash
# trybug.sh ID [check...]: apply a planted bug, run its property's check (or the given ones), undo
id=$1; shift
d=/verif/seeded/$id
checks=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C ${VF_REPO:-/repo} apply $d/patch.diff || exit 9
trap 'git -C ${VF_REPO:-/repo} checkout -q -- .' EXIT
for c in $checks; do
  s=$(date +%s)
  (cd /verif && python3 check.py $c) > /tmp/trybug.$id.$c.log 2>&1
  echo "$id $c rc=$? $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/trybug.$id.$c.log)"
done
