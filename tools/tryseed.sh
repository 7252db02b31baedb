#!/bin/bash
# tryseed.sh ID... : apply a planted bug to /repo, run its property's check, undo
for id in "$@"; do
p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
echo "== $id ($p)"; timeout 900 python3-vt /verif/vc/run.py $p 2>&1 | cut -c1-260 | tail -6; git -C /repo checkout -- .
done
