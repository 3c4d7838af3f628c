"""Development aid: audit.py PROP RUNS [DEPTH]: how often each element of the coverage
measure was met (cut to its first DEPTH parts), to see what never happens."""
import collections, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ.get("AUDIT") != "1":
    import check
    e = dict(check.env(sys.argv[1]), AUDIT="1")
    sys.exit(subprocess.call([check.PY, "-W", "ignore", __file__] + sys.argv[1:], env=e))
prop, runs, depth = sys.argv[1], int(sys.argv[2]), int((sys.argv + [2])[3])
from sim import worker
mod = worker.load(prop)
from sim import rt
C, N = collections.Counter(), collections.Counter()
old = rt.Ctx.mark
def mark(self, *key):
    C[repr(key[:depth])] += 1
    old(self, *key)
rt.Ctx.mark = mark
w = worker.World(mod)
import gc
gc.disable()
for i in range(runs):
    bad, ctx = w.execute(mod.generate(rt.rng("karta", prop, "audit", i), "quick", i))
    N.update(ctx.counts)
    if bad:
        print("run", i, bad)
    if i % 16 == 15:
        gc.collect()
w.close()
for k, v in sorted(C.items()):
    print("%7d %s" % (v, k))
print(dict(N))
