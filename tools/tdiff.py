"""dev aid: where two terms first differ"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import terms as tm
def leaves(a, b, path="", out=None, depth=0):
    out = out if out is not None else []
    if a is b or len(out) > 6: return out
    if not isinstance(a, tm.T) or not isinstance(b, tm.T):
        if a != b:
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for k, (x, y) in enumerate(zip(a, b)): leaves(x, y, path + "/%d" % k, out, depth + 1)
            else: out.append((path, a, b))
        return out
    if a.op != b.op or len(a.args) != len(b.args):
        out.append((path, a, b)); return out
    if a.op in ("poly",):
        out.append((path, a, b)); 
        A = set(map(str, a.args)); 
    n = len(out)
    for k, (x, y) in enumerate(zip(a.args, b.args)):
        leaves(x, y, path + "/%s%d" % (a.op, k), out, depth + 1)
    if len(out) == n: out.append((path, a, b))
    return out
