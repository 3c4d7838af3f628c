"""Readers never take damaged input or a failing disk for good data."""
import os

from .. import disk as D
from ..formats import FORMATS
from ..iohist import Files, shrink_ops
from ..rt import Violation, attempt, canon, collect, first_diff, must

FMTS = ["gtiff", "gtiff", "shp", "geojson", "gpx", "aai"]
PARTS = [".shp", ".shx", ".dbf", ".prj"]
TEXT = ("geojson", "gpx", "aai")


def gen_op(r, f):
    c = r.random()
    if c < 0.45:
        return ["torn", round(r.random() ** r.choice([1, 1, 0.2]), 4), r.choice(PARTS) if f == "shp" else ""]
    if c < 0.6:
        return ["fread", {"k": "read", "act": "short", "len": r.randint(1, 64), "at": round(r.random() * r.choice([1, 0.1]), 4),
                          "sticky": r.random() < 0.7}, "fine"]
    if c < 0.7:
        return ["fread", {"k": "openr", "at": 0.0, "errno": r.choice(["EACCES", "EIO", "EMFILE"]), "sticky": True,
                          "suffix": r.choice(PARTS) if f == "shp" else ""}, "either"]
    fault = {"k": "read", "at": round(r.random(), 4), "errno": "EIO", "sticky": True}
    if f == "gtiff" and r.random() < 0.5:
        fault["act"] = "eof"
    if f in TEXT:
        fault["sticky"] = r.random() < 0.5
    if f == "shp":
        fault["suffix"] = r.choice(PARTS)
        fault["sticky"] = r.random() < 0.5
    return ["fread", fault, "either"]


def generate(r, tier, i):
    f = r.choice(FMTS)
    docs = [[f, FORMATS[f].gen(r, small=r.random() < 0.7)]]
    return {"docs": docs, "ops": [gen_op(r, f) for _ in range(r.randint(1, 5))]}


def readable_part(f, data):
    """how much of the file may be cut off with the loss being detectable by
    any reader: an ASCII grid cut within its last number is still a grid"""
    n = len(data)
    if f == "aai":
        n = len(data.rstrip())
        while n > 0 and not data[n - 1:n].isspace():
            n -= 1
    if f in ("geojson", "gpx"):
        n = len(data.rstrip())
    return n


def full_read(fmt, s, stem):
    """read everything, deferred reads included"""
    got = fmt.read(s, stem)
    return got, fmt.diff(s, got)


def execute(sc, ctx):
    w = Files(ctx, None, sc["docs"])
    f, s = sc["docs"][0]
    fmt = FORMATS[f]
    w.disk.reset()
    must("write-failed", "writing a valid %s" % f, fmt.write, w.obj(0), s, w.stem(0))
    w.drop(0)
    collect()
    w.disk.reset()
    got, diff = must("unreadable", "reading", full_read, fmt, s, w.stem(0))
    if diff:
        raise Violation("content", "healthy %s reads back with %s" % (f, diff))
    base = w.disk.steps()
    del got
    collect()
    for op in sc["ops"]:
        if op[0] == "torn":
            path = w.stem(0) + (op[2] or fmt.ext)
            with open(path, "rb") as fh:
                data = fh.read()
            n = readable_part(f, data)
            cut = min(int(op[1] * n), n - 1)
            with open(path, "wb") as fh:
                fh.write(data[:cut])
            w.disk.reset()
            st, v = attempt(full_read, fmt, s, w.stem(0))
            w.account()
            ctx.fault("torn file " + f)
            ctx.mark("torn", f, op[2], cut if cut < 400 else cut // 50, st, type(v).__name__)
            if st == "ok" and v[1]:
                raise Violation("partial-read", "a %s cut to %d of %d bytes is read without an error, with %s" % (f, cut, len(data), v[1]))
            v = None
            collect()
            with open(path, "wb") as fh:
                fh.write(data)
        else:
            w.disk.reset()
            desc = w.arm(op[1], base)
            st, v = attempt(full_read, fmt, s, w.stem(0))
            hit = [x for x in w.disk.steps() if x["fault"]]
            w.account()
            w.disk.reset()
            for x in hit:
                ctx.fault("%s %s" % (desc, D.KIND.get(x["kind"], "?")))
            ctx.mark("fread", f, desc, [(D.KIND.get(x["kind"]), x["off"], os.path.splitext(x["file"])[1]) for x in hit[:1]], st, type(v).__name__)
            if st == "ok" and v[1]:
                raise Violation("partial-read", "%s while reading a %s: no error, but %s" % (desc, f, v[1]))
            if st == "exc" and op[2] == "fine":
                raise Violation("short-read", "%s while reading a %s: %s: %s" % (desc, f, type(v).__name__, str(v)[:150]))
            v = None
            collect()
        # the disk is healthy again
        w.disk.reset()
        st, v = attempt(full_read, fmt, s, w.stem(0))
        if st == "exc":
            raise Violation("not-recovered", "after the fault was gone, reading the %s raised %s: %s" % (f, type(v).__name__, str(v)[:150]))
        if v[1]:
            raise Violation("not-recovered", "after the fault was gone, the %s reads with %s" % (f, v[1]))
        w.account()
        v = None
        collect()


def shrinks(sc):
    for c in shrink_ops(sc):
        yield c
    for i, op in enumerate(sc["ops"]):
        if op[0] == "fread" and op[1]["at"]:
            yield dict(sc, ops=sc["ops"][:i] + [[op[0], dict(op[1], at=0.0)] + op[2:]] + sc["ops"][i + 1:])
        if op[0] == "torn":
            for at in (0.5, 0.9):
                if op[1] != at:
                    yield dict(sc, ops=sc["ops"][:i] + [[op[0], at] + op[2:]] + sc["ops"][i + 1:])
