"""the bounded stage for every property: python3 tools/harness_all.py; prints the properties with a failure"""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
ok, msg = check.build_harness()
if not ok:
    print("BUILD FAILED", msg[-300:])
    sys.exit(0)


def one(p):
    d, f = check.run_harness(p, 1, 1, 60)
    return p, f


ps = [f"C{n:02d}" for n in range(1, 21)]
res = []
with ThreadPoolExecutor(4) as ex:
    for p, f in ex.map(one, ps):
        if f:
            res.append(p)
n, f = check.check_definitions("C08")
if f:
    res.append("defs")
print("FOUND " + " ".join(res) if res else "quiet")
