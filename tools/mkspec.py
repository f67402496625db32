"""Print the reader designation tables of the current tree (used once; the committed spec was vetted by hand against the formats' documentation)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from props.p03 import *
I = interp()
R = registry(I)[0]
names = {repr(t) for t in set(all_types(I)) | set(TYPES)}
out = {}
for n, res in pmap(rjob, list(R)):
    inv, _ = reach(res, names)
    if len(inv) >= 2:
        out[n] = {k: sorted(x[1:-1] for x in v) for k, v in sorted(inv.items())}
json.dump(out, open(sys.argv[1], "w"), indent=0, sort_keys=True)
