"""Development aid: confirm planted changes and keep them under seeded/.

plant.py SPEC.py [ID...]   SPEC.py defines BUGS, a list of dicts with
  id, property, needs, breaks, edits [(file, old, new[, count])], demo (Python source)
Each is applied in a scratch copy of /repo, built, run through the stable tests
and its demonstration; kept only if all of that is as it has to be."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = "6779916"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PROJ_NETWORK=OFF
exec timeout 250 /opt/venv-pypy/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    shutil.rmtree(d)
    sh("cp -a /repo %s" % d)
    for n in ("build", "test"):
        t = open("/opt/vp/%s.sh" % n).read()
        t = t.replace("/opt/vp/build.sh", d + "/.git/build.sh").replace("/repo", d)
        open(d + "/.git/%s.sh" % n, "w").write(t)
    return d


def one(b):
    d = scratch()
    log = []
    try:
        for e in b["edits"]:
            p = os.path.join(d, e[0])
            s = open(p).read()
            if s.count(e[1]) != 1:
                return b["id"], "edit matches %d times: %r" % (s.count(e[1]), e[1][:60])
            open(p, "w").write(s.replace(e[1], e[2]))
        diff = subprocess.run("git -C %s diff" % d, shell=True, stdout=subprocess.PIPE).stdout.decode()
        # which original lines does it change?
        orig = 0
        for f in {e[0] for e in b["edits"]}:
            old = sh("git -C %s diff -U0 %s" % (d, f)).stdout
            bl = sh("git -C %s blame -s HEAD -- %s" % (d, f)).stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", old, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                orig += sum(1 for l in bl[a - 1:a - 1 + n] if l.startswith("^" + BASE[:6]))
        if orig == 0:
            return b["id"], "changes no original line"
        r = sh("bash %s/.git/build.sh" % d)
        if r.returncode:
            return b["id"], "build failed: " + r.stdout[-600:]
        dd = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
        open(dd + "/demo.py", "w").write(b["demo"])
        open(dd + "/demo.sh", "w").write(DEMO_SH)
        r0 = sh("bash %s/demo.sh" % dd, cwd="/repo")
        r1 = sh("bash %s/demo.sh" % dd, cwd=d)
        if r0.returncode != 0:
            return b["id"], "demo fails on the unchanged tree: " + r0.stdout[-800:]
        if r1.returncode == 0:
            return b["id"], "demo passes with the change: " + r1.stdout[-300:]
        r = sh("bash %s/.git/test.sh %s/.git/out.json" % (d, d))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = set(json.load(open(d + "/.git/out.json"))["passed"])
        miss = [t for t in base if t not in got]
        if miss:
            return b["id"], "tests fail: %s" % miss[:5]
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(b["demo"])
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(dd)
        return b["id"], "kept (demo: %s)" % (r1.stdout.strip().splitlines() or ["?"])[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, bugs):
            print(i, "-", m, flush=True)
