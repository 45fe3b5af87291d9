#!/bin/bash
# tryseed.sh <seed id> [property...]: applies the seeded bug to /repo, runs the checks, undoes it
id=$1; shift
props=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for p in $props; do (cd /verif; timeout 900 python3-vt gkv/check.py $p quick >/tmp/ts_$id_$p.log 2>&1; echo "$id $p rc=$?"; grep "failed obl\|VIOLATION\|quick:" /tmp/ts_$id_$p.log | cut -c1-220 | head -6); done
git -C /repo checkout -- .
