"""Runs simulated executions of one property. Started by check.py under PyPy
with simdisk preloaded; talks JSON lines on stdout.

  worker.py run PROP --seed S --tier T --first I --step N --runs R --deadline SEC
  worker.py replay FILE            (exit 0: reproduced, 3: not reproduced)
  worker.py minimise FILE OUT SEC
"""
import argparse
import gc
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def out(**kw):
    os.write(OUTFD, (json.dumps(kw) + "\n").encode())


def load(prop):
    """Import order matters: the libraries first, then the simulator's seams,
    then karta, so that karta sees the seams."""
    import numpy
    import blosc
    import pyproj
    import picogeojson
    import coordstring
    from osgeo import gdal, ogr, osr
    blosc.set_nthreads(1)
    from sim import sched, seams
    sched.install_locks()
    seams.install()
    mod = importlib.import_module("sim.props." + prop.lower())
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    return mod


class World(object):
    def __init__(self, mod):
        from sim.disk import Disk
        self.mod = mod
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="kartasim-", dir=base)
        so = os.environ.get("LD_PRELOAD", "")
        self.disk = Disk(so, self.root) if so else None
        self.n = 0

    def execute(self, sc):
        """One simulated run. Returns (violation or None, ctx)."""
        from sim.rt import Ctx, Violation
        self.n += 1
        tmp = os.path.join(self.root, "r%d" % self.n)
        os.mkdir(tmp)
        ctx = Ctx(tmp, self.disk)
        ctx.prefix = "r%d" % self.n
        if self.disk:
            self.disk.reset()
        bad = None
        try:
            self.mod.execute(sc, ctx)
        except Violation as e:
            bad = {"kind": e.kind, "msg": e.msg}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any("/karta/" in f.filename and not f.filename.startswith(ROOT) for f in tb):
                where = [f for f in tb if "/karta/" in f.filename][-1]
                bad = {"kind": "unexpected-exception",
                       "msg": "%s: %s at %s:%d" % (type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.lineno)}
            else:
                raise
        finally:
            if self.disk:
                self.disk.reset()
            shutil.rmtree(tmp, ignore_errors=True)
        return bad, ctx

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def cmd_run(a):
    from sim.rt import rng
    mod = load(a.prop)
    w = World(mod)
    t0 = time.time()
    gc.disable()
    faults, counts, cover, known, steps, runs, gens = {}, {}, set(), {}, 0, 0, 0
    sims = 0.0
    samples = []
    try:
        i = a.first
        while i < a.runs:
            if time.time() - t0 > a.deadline:
                break
            out(at=i)
            sc = mod.generate(rng("karta", a.prop, a.seed, i), a.tier, i)
            bad, ctx = w.execute(sc)
            runs += 1
            for k, v in ctx.faults.items():
                faults[k] = faults.get(k, 0) + v
            for k, v in ctx.counts.items():
                counts[k] = counts.get(k, 0) + v
            cover |= ctx.cover
            steps += ctx.steps
            for k, v in ctx.known.items():
                known.setdefault(k, dict(what=v, run=i))
            if len(samples) < 2 and a.first < 4:
                samples.append({"run": i, "scenario": json.loads(json.dumps(sc))})
            if bad:
                out(violation=bad, run=i, scenario=sc)
                break
            if runs % 16 == 0:
                gc.collect()
            i += a.step
    finally:
        w.close()
    out(done=True, runs=runs, faults=faults, counts=counts, cover=sorted(cover), steps=steps,
        known=known, samples=samples, seconds=time.time() - t0)


def cmd_replay(a):
    rep = json.load(open(a.file))
    mod = load(rep["property"])
    w = World(mod)
    gc.disable()
    bad = None
    try:
        if rep.get("mode") == "history":
            from sim.rt import rng
            for i in rep["runs"]:
                sc = mod.generate(rng("karta", rep["property"], rep["seed"], i), rep["tier"], i)
                bad, _ = w.execute(sc)
                if bad:
                    break
        else:
            bad, _ = w.execute(rep["scenario"])
    finally:
        w.close()
    out(replayed=bad)
    os._exit(0 if bad else 3)


def cmd_minimise(a):
    rep = json.load(open(a.file))
    mod = load(rep["property"])
    w = World(mod)
    gc.disable()
    t0 = time.time()
    best, kind, tries = rep["scenario"], rep["violation"]["kind"], 0
    last = rep["violation"]
    try:
        progress = True
        while progress and time.time() - t0 < a.seconds:
            progress = False
            for cand in mod.shrinks(best):
                if time.time() - t0 > a.seconds:
                    break
                tries += 1
                try:
                    bad, _ = w.execute(cand)
                except Exception:
                    continue        # an ill-formed candidate
                if bad and bad["kind"] == kind:
                    best, last, progress = cand, bad, True
                    break
    finally:
        w.close()
    rep["scenario"], rep["violation"], rep["minimised_in_tries"] = best, last, tries
    with open(a.out, "w") as f:
        json.dump(rep, f, indent=1, sort_keys=True)
    out(minimised=tries)


if __name__ == "__main__":
    OUTFD = os.dup(1)
    os.dup2(2, 1)           # GDAL and friends may print
    p = argparse.ArgumentParser()
    s = p.add_subparsers(dest="cmd")
    q = s.add_parser("run")
    q.add_argument("prop")
    q.add_argument("--seed", default="1")
    q.add_argument("--tier", default="quick")
    q.add_argument("--first", type=int, default=0)
    q.add_argument("--step", type=int, default=1)
    q.add_argument("--runs", type=int, default=10)
    q.add_argument("--deadline", type=float, default=600)
    q = s.add_parser("replay")
    q.add_argument("file")
    q = s.add_parser("minimise")
    q.add_argument("file")
    q.add_argument("out")
    q.add_argument("seconds", type=float)
    a = p.parse_args()
    try:
        {"run": cmd_run, "replay": cmd_replay, "minimise": cmd_minimise}[a.cmd](a)
    except BaseException:
        out(error=traceback.format_exc())
        os._exit(4)
    os._exit(0)
