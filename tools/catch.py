"""Development aid: run the check of each planted bug's property against it.

catch.py [--runs N] [--props C01,C02] ID...   (all of seeded/ without IDs)"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plant import scratch, sh, SEEDED

args = sys.argv[1:]
extra, props = [], None
while args and args[0].startswith("--"):
    if args[0] == "--props":
        props = args[1].split(",")
    else:
        extra += args[:2]
    args = args[2:]
for i in args or sorted(os.listdir(SEEDED)):
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    d = scratch()
    try:
        r = sh("git -C %s apply %s/%s/patch.diff && bash %s/.git/build.sh" % (d, SEEDED, i, d))
        if r.returncode:
            print(i, "does not build", r.stdout[-300:])
            continue
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, HERE + "/check.py", p] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, KARTA_REPO=d))
            out = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
            print("%-28s %s %s %4.0fs %s" % (i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), time.time() - t,
                                           [l for l in out if '"kind"' in l][-1:] or out[-3:]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
