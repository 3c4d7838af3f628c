#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N] [--seed S]

Rebuilds karta from /repo's working tree, runs the simulation of one property
over many seeds on all cores, minimises and re-executes a failure, writes
evidence/<PROPERTY>.json. Exit 0: held on everything explored; 1: VIOLATION.
"""
import argparse
import hashlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KARTA_REPO", "/repo")
PY = "/opt/venv-pypy/bin/python"
SO = os.path.join(HERE, "build", "simdisk.so")
STALL = 150          # seconds without any simulated run ending


def build():
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    src = os.path.join(HERE, "sim", "simdisk.c")
    stamp = SO + "." + hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    if not (os.path.exists(SO) and os.path.exists(stamp)):
        tmp = SO + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-g", "-Wall", "-fPIC", "-shared", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
        os.replace(tmp, SO)
        open(stamp, "w").close()
    if REPO == "/repo":
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode("utf8", "replace")[-3000:])
            print("BUILD FAILED")
            sys.exit(2)


def env(prop):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LD_PRELOAD=SO,
             PROJ_NETWORK="OFF", MALLOC_PERTURB_="170", KARTA_REPO=REPO, OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8")
    return e


def worker(args, prop, timeout=None):
    p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "sim", "worker.py")] + [str(a) for a in args],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(prop), start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return "timeout", [json.loads(l) for l in o.decode().splitlines() if l.endswith("}")], e
    return p.returncode, [json.loads(l) for l in o.decode().splitlines() if l.endswith("}")], e


class Proc(object):
    def __init__(self, prop, tier, seed, first, step, runs, deadline):
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", os.path.join(HERE, "sim", "worker.py"), "run", prop, "--seed", str(seed),
             "--tier", tier, "--first", str(first), "--step", str(step), "--runs", str(runs),
             "--deadline", str(deadline)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(prop), start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.first, self.step = first, step
        self.buf, self.err = b"", b""
        self.at = None
        self.last = time.time()
        self.msg = {}
        self.dead = None

    def lines(self, data):
        self.buf += data
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(l) for l in ls]


def spread(prop, tier, seed, runs, deadline, nworkers, quiet=False):
    """Run [0, runs) over the workers. Returns (list of final messages, violations, crashes, errors)."""
    sel = selectors.DefaultSelector()
    ps = [Proc(prop, tier, seed, i, nworkers, runs, deadline) for i in range(min(nworkers, runs))]
    for p in ps:
        sel.register(p.p.stdout, selectors.EVENT_READ, (p, "o"))
        sel.register(p.p.stderr, selectors.EVENT_READ, (p, "e"))
    final, viol, crash, errs = [], [], [], []
    alive = set(ps)
    while alive:
        for key, _ in sel.select(timeout=2):
            p, which = key.data
            data = key.fileobj.read()
            if not data:
                sel.unregister(key.fileobj)
                if which == "o":
                    p.p.wait()
                    alive.discard(p)
                    if "done" not in p.msg and "error" not in p.msg:
                        crash.append((p.at, p.dead or "exit status %s" % p.p.returncode))
                continue
            if which == "e":
                p.err = (p.err + data)[-4000:]
                continue
            for m in p.lines(data):
                p.last = time.time()
                if "at" in m:
                    p.at = m["at"]
                elif "violation" in m:
                    viol.append(m)
                elif "done" in m:
                    p.msg["done"] = m
                    final.append(m)
                elif "error" in m:
                    p.msg["error"] = m
                    errs.append(m["error"])
        for p in list(alive):
            if time.time() - p.last > STALL and p.p.poll() is None:
                p.dead = "stalled"
                os.killpg(p.p.pid, signal.SIGKILL)
        if viol or errs:
            # enough: let the others stop
            lo = min([v["run"] for v in viol] or [0])
            for p in list(alive):
                if (p.at is None or p.at > lo or errs) and p.p.poll() is None:
                    p.msg.setdefault("done", None)
                    os.killpg(p.p.pid, signal.SIGKILL)
    return final, viol, crash, errs


def known_findings():
    """lines 'known: property=<id> name=<name> <what>' of known_findings.txt"""
    res = {}
    path = os.path.join(HERE, "known_findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        if l.startswith("known:"):
            w = l.split()
            res[(w[1].split("=")[1], w[2].split("=")[1])] = " ".join(w[3:])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    if not a.no_build:
        build()
    if prop == "setup":
        return 0
    if a.replay:
        rc, ms, e = worker(["replay", a.replay], prop, 600)
        print(json.dumps(ms[-1] if ms else {}), flush=True)
        if rc == 0 or rc not in (3, 4):
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        if rc == 4:
            sys.stderr.write(str(ms) + e.decode("utf8", "replace"))
            return 2
        print("not reproduced")
        return 0

    cfg = json.load(open(os.path.join(HERE, "sim", "tiers.json")))[prop]
    runs = a.runs or cfg[a.tier]["runs"]
    deadline = a.deadline or cfg[a.tier]["seconds"]
    final, viol, crash, errs = spread(prop, a.tier, a.seed, runs, deadline, a.workers)
    if errs and not viol:
        sys.stderr.write("HARNESS ERROR\n" + errs[0])
        return 2

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", "%s.json" % prop)
    violations = []
    if viol:
        v = min(viol, key=lambda m: m["run"])
        violations.append(report(prop, a, v["run"], v["scenario"], v["violation"], replay))
    elif crash:
        # a run that killed the process: confirm alone, in a fresh process
        at, how = min(crash, key=lambda c: (c[0] is None, c[0]))
        rep = {"property": prop, "seed": a.seed, "tier": a.tier, "mode": "history", "runs": [at] if at is not None else [],
               "violation": {"kind": "process", "msg": "the process died (%s)" % how}}
        with open(replay, "w") as f:
            json.dump(rep, f)
        rc, ms, e = worker(["replay", replay], prop, STALL)
        if rc in (3, 4):
            rep["runs"] = list(range(at % a.workers, at + 1, a.workers))
            with open(replay, "w") as f:
                json.dump(rep, f)
            rc, ms, e = worker(["replay", replay], prop, 600)
        if rc in (3, 4):
            sys.stderr.write("HARNESS ERROR: a worker ended (%s) in run %s, which does not happen again\n" % (how, at))
            return 2
        violations.append(rep["violation"])

    tot = {"runs": sum(f["runs"] for f in final), "steps": sum(f["steps"] for f in final)}
    faults, counts, cover, known, samples = {}, {}, set(), {}, []
    for f in final:
        for k, n in f["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in f["counts"].items():
            counts[k] = counts.get(k, 0) + n
        cover |= set(f["cover"])
        known.update({k: v for k, v in f["known"].items() if k not in known})
        samples += f["samples"]
    wall = time.time() - t0
    simsec = max([f["seconds"] for f in final] or [wall])
    meta = cfg["evidence"]
    kf = known_findings()
    for name, k in sorted(known.items()):
        if (prop, name) in kf:
            print("KNOWN-FINDING: property=%s %s (run %s: %s)" % (prop, kf[(prop, name)], k["run"], k["what"]))
        else:
            violations.append({"kind": name, "msg": k["what"]})
            replay_known = {"property": prop, "seed": a.seed, "tier": a.tier, "mode": "history", "runs": [k["run"]],
                            "violation": violations[-1]}
            with open(replay, "w") as f:
                json.dump(replay_known, f)
    for (p, name), what in sorted(kf.items()):
        if p == prop and name not in known and not violations:
            print("KNOWN-FINDING: property=%s %s (listed; not met in this run)" % (prop, what))
    ev = {
        "property": prop, "tier": a.tier, "seed": int(a.seed) if str(a.seed).isdigit() else 0, "level": cfg["level"],
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(cover),
            "rule": meta["rule"],
            "samples": samples[:4],
            "simulated_runs": tot["runs"], "runs_planned": runs,
            "seeds_per_hour": int(3600 * tot["runs"] / max(simsec, 1e-9)),
            "simulated_time": "%d simulated steps (%s); the code under test reads no clock" % (tot["steps"], meta["step"]),
            "faults_injected": faults, "operations": counts,
            "distinct_states_measure": meta["rule"],
            "components_real": meta["real"], "components_stubbed": meta["stub"],
            "workers": a.workers, "violations_found": violations,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d runs, %d distinct, %d steps, faults %s, %.1f s"
          % (prop, a.tier, tot["runs"], len(cover), tot["steps"], json.dumps(faults, sort_keys=True), wall))
    if violations:
        print(json.dumps(violations[0]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def report(prop, a, run, sc, viol, replay):
    rep = {"property": prop, "seed": a.seed, "tier": a.tier, "run": run, "mode": "scenario", "scenario": sc,
           "violation": viol}
    raw = replay + ".raw"
    for old in (replay, raw):
        if os.path.exists(old):
            os.remove(old)
    with open(raw, "w") as f:
        json.dump(rep, f, sort_keys=True)
    worker(["minimise", raw, replay, 45 if a.tier == "quick" else 120], prop, 300)
    for cand in (replay, raw):
        if not os.path.exists(cand):
            continue
        rc, ms, e = worker(["replay", cand], prop, 300)
        if rc not in (3, 4):
            if cand == raw:
                os.replace(raw, replay)
            elif os.path.exists(raw):
                os.remove(raw)
            r = json.load(open(replay))
            return dict(r["violation"], run=run, minimised_in_tries=r.get("minimised_in_tries"), replay="reproduced in a fresh process")
    # depends on what the same process did before: replay that history
    rep["mode"], rep["runs"] = "history", list(range(run % a.workers, run + 1, a.workers))
    with open(replay, "w") as f:
        json.dump(rep, f, sort_keys=True)
    rc, ms, e = worker(["replay", replay], prop, 600)
    return dict(viol, run=run, replay="history of %d runs %s" % (
        len(rep["runs"]), "reproduced in a fresh process" if rc not in (3, 4) else "NOT reproduced"))


if __name__ == "__main__":
    sys.exit(main())
