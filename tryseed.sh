#!/bin/bash
# tryseed.sh ID...: apply each planted bug to /repo, run its property's check, undo
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
echo "== $id $p"; python3 /verif/check.py $p | cut -c1-400 | tail -${LINES_:-5}
git -C /repo checkout -q -- .
done
