"""A storage failure during a write is reported, contained and survivable."""
from ..formats import FORMATS
from ..iohist import Files, shrink_ops
from ..rt import collect

FMTS = ["gtiff", "shp", "geojson", "gpx", "aai"]
TEXT = ("geojson", "gpx", "aai")


def gen_fault(r, f):
    c = r.random()
    if c < 0.25:
        return {"k": "full", "at": round(r.random(), 4)}
    if c < 0.4:
        return {"k": "open", "at": round(r.random(), 4), "errno": r.choice(["EACCES", "ENOSPC", "EROFS", "EMFILE"]),
                "sticky": f not in TEXT or r.random() < 0.5}
    if c < 0.75 or f not in TEXT:
        return {"k": "write", "at": round(r.random(), 4), "errno": r.choice(["EIO", "ENOSPC", "EDQUOT"]),
                "sticky": f not in TEXT or r.random() < 0.5, "suffix": ""}
    if c < 0.85:
        return {"k": "close", "at": round(r.random(), 4), "errno": r.choice(["EIO", "EDQUOT"])}
    return {"k": "write", "at": round(r.random(), 4), "act": "short", "len": r.randint(1, 30), "sticky": r.random() < 0.7}


def generate(r, tier, i):
    if i in (0, 1):
        # the recorded findings, so that they are met on every tree they exist on
        p = {"t": "Point", "crs": "nsidc", "p": {"a": 1}, "v": [1.0, 2.0]}
        return {"docs": [["shp", {"g": [p, p], "single": False, "ext": True, "rdext": True}]],
                "ops": [["fault", 0, 0, ({"k": "write", "suffix": ".shx", "at": 0.999, "sticky": True, "errno": "EIO"},
                                        {"k": "open", "suffix": ".prj", "at": 0.0, "sticky": True, "errno": "EMFILE"})[i]]]}
    f = r.choice(FMTS)
    fs = [f] + [r.choice([f, f, r.choice(FMTS)]) for _ in range(r.randint(0, 2))]
    docs = [[x, FORMATS[x].gen(r, small=True)] for x in fs]
    if r.random() < 0.15:
        # more than the buffers between the writer and the disk hold
        docs[0][1] = FORMATS[f].gen(r, small="large")
    ops = []
    for d in range(1, len(docs)):
        ops.append(["write", d, d])
    for _ in range(r.randint(1, 3)):
        d = r.randrange(len(docs))
        slot = r.choice([0, d])
        ops.append(["fault", d, slot, gen_fault(r, docs[d][0])])
        if r.random() < 0.5:
            ops.append(["gc"])
        if r.random() < 0.7:
            ops.append(["rewrite", r.choice([d, r.randrange(len(docs))]), slot])
        if r.random() < 0.3:
            ops.append(["read", r.randrange(3)])
    return {"docs": docs, "ops": ops}


def execute(sc, ctx):
    w = Files(ctx, None, sc["docs"])
    for op in sc["ops"]:
        k = op[0]
        if k == "write" or k == "rewrite":
            w.write(op[1], op[2])
        elif k == "fault":
            w.faultwrite(op[1], op[2], op[3])
        elif k == "gc":
            others = w.allsums()
            w.gc()
            # what a failed write left in memory must not reach the disk later
            if {s: v for s, v in w.allsums().items() if keep(w, s)} != {s: v for s, v in others.items() if keep(w, s)}:
                from ..rt import Violation
                raise Violation("late-damage", "files changed at a garbage collection")
        elif k == "read":
            w.read(op[1])
    w.finish()


def keep(w, name):
    return w.model.get(int(name[4:name.index(".")])) is not None if name.startswith("slot") else False


def shrinks(sc):
    for c in shrink_ops(sc):
        yield c
    for i, op in enumerate(sc["ops"]):
        if op[0] == "fault":
            for at in (0.0, 0.25, 0.5, 0.75, 0.999):
                if op[3]["at"] != at:
                    yield dict(sc, ops=sc["ops"][:i] + [op[:3] + [dict(op[3], at=at)]] + sc["ops"][i + 1:])
