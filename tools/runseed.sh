#!/bin/bash
# runseed.sh ID [PROP] : run check of its property on a scratch copy with the patch
id=$1; d=/verif/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
s=/tmp/sr-$id-$p
rm -rf "$s"; git clone -q /repo $s && git -C $s apply $d/patch.diff || { echo "$id APPLY FAIL"; exit; }
VERIF_REPO=$s timeout 900 bash /verif/check.sh $p ${TIER:-quick} > /tmp/out-$id-$p.txt 2>&1; rc=$?
echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/out-$id-$p.txt) $(grep '^scenario' /tmp/out-$id-$p.txt | head -1 | cut -c1-150)"
rm -rf "$s"
