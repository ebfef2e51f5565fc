"""summary of the comparison of a dump with the reference: mutcmp.py DUMP [v]"""
import sys
from verdict import *
sys.setrecursionlimit(20000)
s = Suite(load_dump(sys.argv[1]), load_ref())
s.want_panics = True
s.budget = 40
bad, und, bnd = {}, {}, set()
for x in sorted(set(s.rk)):
    for v in s.judge(x):
        if v.status == "equal":
            if "bounded" in v.how:
                bnd.add(v.unit)
            continue
        (und if v.status == "undecided" else bad).setdefault(v.unit, v)
if len(sys.argv) > 2:
    for v in list(bad.values()) + list(und.values()):
        print(v)
        for m in v.mism[:4]:
            print("   ", m)
if bad:
    print("DIFF", sorted(bad))
elif und:
    print("UNDEC", sorted(und))
else:
    print("SAME", "removed", sorted(s.removed), "added", sorted(s.added) if s.added else "", "bounded %s" % sorted(bnd) if bnd else "")
