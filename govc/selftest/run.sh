#!/bin/bash
# Runs govc on programs whose verdict is known (st/st.go, specs/st.spec).
# Exit 0 when every verdict is as its function's name says.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
bash "$D/../../setup.sh" || exit 2
"$D/../../build/govc" -repo "$D" -specs "$D/specs" -timeout 4 | python3 -c '
import sys
want = {"Good": "proved", "Bad": "failed", "Vac": "vacuous", "Unfit": "unfit"}
n = bad = 0
for l in sys.stdin:
    w = l.split()
    if len(w) < 2 or not w[1].startswith("st."):
        continue
    f = w[1][3:]
    for k, v in want.items():
        if f.startswith(k):
            n += 1
            if w[0] != v:
                bad += 1
                print("WRONG VERDICT", w[1], w[0], "expected", v)
print(n, "programs,", bad, "wrong verdicts")
sys.exit(1 if bad or n < 50 else 0)'
