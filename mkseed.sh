#!/bin/bash
# mkseed.sh ID: take the uncommitted change in /tmp/w (a worktree copy of /repo) as a planted bug;
# confirms that it builds, passes the stable tests, and that the demo discriminates.
set -u
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
cd /tmp/w || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty diff"; exit 1; }
go build ./... || { echo NOBUILD; exit 1; }
GOOS=js GOARCH=wasm go build -o /dev/null ./wasm || { echo NOBUILD; exit 1; }
go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/w.log
python3 /opt/vp/results.py /tmp/w.json gojson:/tmp/w.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k])
    raise SystemExit("keys %s"%list(x))
miss=names(b)-names(r)
print("TESTS", "OK" if not miss else "BROKEN %s"%sorted(miss)[:5])
P
# demo runs with cwd /repo; emulate in copies
run() { (cd $1 && VERIF_DEMO_REPO=$1 bash $d/demo.sh >/tmp/demo.out 2>&1; echo $?); }
b=$(run /tmp/w); 
git stash -q; u=$(run /tmp/w); git stash pop -q
echo "demo: unchanged=$u patched=$b"
git checkout -q -- .
