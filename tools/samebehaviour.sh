#!/bin/bash
# samebehaviour.sh TREE : does the tree behave as /repo on the probe calls? (development aid)
P=/opt/venv/bin/python; H=$(dirname "$(readlink -f "$0")")
[ -f /tmp/probe0.pkl ] || (cd /tmp && PYTHONPATH=/repo $P -B $H/probe.py /tmp/probe0.pkl)
(cd /tmp && PYTHONPATH=$1 $P -B $H/probe.py /tmp/probe1.pkl) || exit 1
$P - <<'PY'
import pickle, numpy as np
a, b = (pickle.load(open("/tmp/probe%d.pkl" % k, "rb")) for k in (0, 1))
def flat(x):
    if isinstance(x, dict): return [v for k in sorted(x) for v in flat(x[k])]
    if isinstance(x, tuple): return [v for y in x for v in flat(y)]
    return [x]
bad = 0
for k in a:
    for x, y in zip(flat(a[k]), flat(b[k])):
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            ok = type(x) is type(y) and x == y
        else:
            x, y = np.asarray(x), np.asarray(y)
            ok = x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True)
        if not ok:
            bad += 1
            if bad < 12: print("DIFF", k, x if isinstance(x, str) else x.shape, y if isinstance(y, str) else y.shape, "" if isinstance(x, str) or isinstance(y, str) or x.shape != y.shape else np.nanmax(np.abs(x - y)))
print(len(a), "calls,", bad, "differences")
PY
