"""Histories of reads and writes of files, with crashes and storage faults.

The world is one directory on the simulated disk with a few file stems
("slots"). A reference model remembers what each slot has to contain: the
document whose write was last acknowledged, or nothing definite after a crash
or a reported failure.
"""
import errno
import hashlib
import os

from . import disk as D
from .formats import FORMATS
from .rt import Violation, attempt, canon, collect, first_diff, must

MASKING = (NameError, AttributeError, TypeError, IndexError, KeyError, UnboundLocalError)
ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EINTR": errno.EINTR,
         "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "EMFILE": errno.EMFILE}


class Files(object):
    def __init__(self, ctx, fmts, docs):
        self.ctx, self.disk = ctx, ctx.disk
        self.docs = docs                # [(fmt name, spec)]
        self.fmts = fmts
        self.objs = {}
        self.before = {}
        self.model = {}                 # slot -> doc index | None (indefinite)
        self.sums = {}
        self.held = []
        self.ncopy = 0
        self.disk.reset()

    # -- documents

    def obj(self, d):
        if d not in self.objs:
            f, s = self.docs[d]
            self.objs[d] = FORMATS[f].build(s)
            self.before[d] = canon(self.objs[d])
        return self.objs[d]

    def drop(self, d):
        self.objs.pop(d, None)

    def unchanged(self, d, after):
        if d in self.objs:
            now = canon(self.objs[d])
            if now != self.before[d]:
                raise Violation("object-changed", "%s changed the object being written: %s"
                                % (after, first_diff(self.before[d], now)))

    # -- paths

    def stem(self, slot):
        return os.path.join(self.ctx.tmp, "slot%d" % slot)

    def paths(self, slot, d):
        return FORMATS[self.docs[d][0]].files(self.stem(slot))

    def allsums(self, but=None):
        """content of every file outside the slot `but`"""
        out = {}
        for n in sorted(os.listdir(self.ctx.tmp)):
            p = os.path.join(self.ctx.tmp, n)
            if os.path.isdir(p) or (but is not None and n.startswith("slot%d." % but)):
                continue
            with open(p, "rb") as f:
                out[n] = hashlib.sha256(f.read()).hexdigest()
        return out

    def account(self):
        """move the disk's counters into the run's"""
        self.ctx.steps += self.disk.nsteps()

    # -- operations

    def write(self, d, slot):
        f, s = self.docs[d]
        fmt = FORMATS[f]
        o = self.obj(d)
        self.disk.reset()
        must("write-failed", "writing a valid %s on a healthy disk" % f, fmt.write, o, s, self.stem(slot))
        self.account()
        self.model[slot] = d
        self.ctx.count("write " + f)
        self.crash_image(slot, d, "on return of the writer")
        self.unchanged(d, "writing")

    def crash_image(self, slot, d, when):
        """a process that died right now would find these bytes after restart"""
        f, s = self.docs[d]
        self.ncopy += 1
        dst = os.path.join(self.ctx.tmp, "crash%d" % self.ncopy)
        os.mkdir(dst)
        D.copyfiles(self.paths(slot, d), dst)
        self.disk.reset()
        self.verify(os.path.join(dst, "slot%d" % slot), d, "crash " + when)
        self.account()
        self.ctx.fault("crash at return")

    def verify(self, stem, d, when, kind=None):
        f, s = self.docs[d]
        fmt = FORMATS[f]
        got = must(kind or "unreadable", "%s: reading an acknowledged %s back" % (when, f), fmt.read, s, stem)
        diff = fmt.diff(s, got)
        if diff:
            raise Violation(kind or "content", "%s: acknowledged %s reads back with %s" % (when, f, diff))
        self.held.append(got)
        if len(self.held) > 3:
            self.held.pop(0)
        self.ctx.count("read back " + f)

    def read(self, slot):
        d = self.model.get(slot)
        if d is None:
            return
        self.disk.reset()
        self.verify(self.stem(slot), d, "later")
        self.account()

    def again(self, slot, over):
        """what was read is written, to the same place or another, and read"""
        d = self.model.get(slot)
        if d is None:
            return
        f, s = self.docs[d]
        fmt = FORMATS[f]
        src = self.stem(slot)
        self.disk.reset()
        got = must("unreadable", "reading an acknowledged %s back" % f, fmt.read, s, src)
        self.ncopy += 1
        dst = os.path.join(self.ctx.tmp, "again%d" % self.ncopy)
        os.mkdir(dst)
        to = os.path.join(dst, "slot%d" % slot)
        if over:
            D.copyfiles(self.paths(slot, d), dst)
            src = to
        diff = must("rewrite", "writing the %s that was read%s" % (f, " over itself" if over else ""), fmt.again, s, src, got, to)
        if diff:
            raise Violation("rewrite", "the %s that was read, written again%s, reads with %s" % (f, " over itself" if over else "", diff))
        self.account()
        self.ctx.count("read, written again " + f)

    def crashwrite(self, d, slot, frac, torn):
        """the process writing the document is killed at a disk step; of a write
        under way only the first `torn` bytes land"""
        f, s = self.docs[d]
        fmt = FORMATS[f]
        o = self.obj(d)
        # length of the undisturbed execution
        probe = os.path.join(self.ctx.tmp, "probe")
        if not os.path.isdir(probe):
            os.mkdir(probe)
        self.disk.reset()
        pid = os.fork()
        if pid == 0:
            try:
                fmt.write(o, s, os.path.join(probe, "slot%d" % slot))
                n = self.disk.nmut()
            except BaseException:
                n = 0
            with open(os.path.join(self.ctx.tmp, "probe.n"), "w") as fh:
                fh.write(str(n))
            os._exit(0)
        os.waitpid(pid, 0)
        p = os.path.join(self.ctx.tmp, "probe.n")
        with open(p) as fh:
            n = int(fh.read())
        os.remove(p)
        self.disk.reset()
        at = int(frac * (n + 1))
        self.disk.crash(at, torn, exit=True)
        pid = os.fork()
        if pid == 0:
            code = 7
            try:
                fmt.write(o, s, self.stem(slot))
                code = 0
            except BaseException:
                code = 8
            os._exit(code)
        _, st = os.waitpid(pid, 0)
        self.disk.reset()
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        self.ctx.count("crashed write " + f)
        if code == 77:
            self.model[slot] = None
            self.ctx.fault("crash in write")
            if torn:
                self.ctx.fault("torn write")
            self.ctx.mark("crash", f, at, min(torn, 600) // 100)
        elif code == 0:
            self.model[slot] = d
            self.verify(self.stem(slot), d, "after a crash following the write")
        else:
            raise Violation("write-failed", "writing a valid %s on a healthy disk failed in a child process (%d)" % (f, code))

    def gc(self):
        collect()
        self.ctx.count("gc")

    def finish(self):
        self.held = []
        self.objs.clear()
        collect()
        for slot in sorted(self.model):
            self.read(slot)
        self.held = []
        collect()

    # -- writes under faults

    def faultwrite(self, d, slot, fault):
        """One write with storage faults. Returns nothing; raises Violation."""
        f, s = self.docs[d]
        fmt = FORMATS[f]
        o = self.obj(d)
        others = self.allsums(slot)
        probe = os.path.join(self.ctx.tmp, "probe")
        if not os.path.isdir(probe):
            os.mkdir(probe)
        self.disk.reset()
        must("write-failed", "writing a valid %s on a healthy disk" % f, fmt.write, o, s, os.path.join(probe, "slot9"))
        base = self.disk.steps()
        self.disk.reset()
        desc = self.arm(fault, base)
        st, e = attempt(fmt.write, o, s, self.stem(slot))
        steps = self.disk.steps()
        hit = [x for x in steps if x["fault"]]
        self.account()
        self.disk.reset()
        self.ctx.count("faulted write " + f)
        for x in hit:
            self.ctx.fault("%s %s" % (desc, D.KIND.get(x["kind"], "?")))
        self.ctx.mark("fault", f, desc, sorted({(D.KIND.get(x["kind"]), os.path.splitext(x["file"])[1],
                      sum(1 for y in steps[:k] if y["kind"] == x["kind"])) for k, x in enumerate(steps) if x["fault"]})[:3],
                      st, type(e).__name__ if st == "exc" else "")
        if st == "exc":
            self.model[slot] = None
            if isinstance(e, MASKING):
                raise Violation("masked-error", "%s while writing %s: instead of the storage error the caller gets %s: %s"
                                % (desc, f, type(e).__name__, str(e)[:150]))
            if isinstance(e, KeyboardInterrupt):
                raise Violation("masked-error", "%s: KeyboardInterrupt" % desc)
            if not hit:
                raise Violation("write-failed", "writing a valid %s failed although no fault struck: %s: %s"
                                % (f, type(e).__name__, str(e)[:150]))
        else:
            try:
                self.model[slot] = d
                if not hit:
                    self.crash_image(slot, d, "on return of the writer")
                else:
                    self.check_survivor(d, slot, desc, steps, hit)
            except Violation as v:
                name = self.known(f, steps, hit)
                if name is None:
                    raise
                self.ctx.finding(name, "%s: %s" % (desc, v.msg))
                self.model[slot] = None
        now = self.allsums(slot)
        if now != others:
            raise Violation("other-file", "%s while writing %s changed other files: %s"
                            % (desc, f, sorted(k for k in set(now) | set(others) if now.get(k) != others.get(k))))
        self.unchanged(d, "a failed write")
        for p in os.listdir(probe):
            os.remove(os.path.join(probe, p))

    def check_survivor(self, d, slot, desc, steps, hit):
        f = self.docs[d][0]
        try:
            self.crash_image(slot, d, "on return of the writer")
        except Violation as v:
            h = hit[0]
            raise Violation("unreported-failure", "%s struck a %s of %s, the writer returned normally, but %s"
                            % (desc, D.KIND.get(h["kind"]), os.path.splitext(h["file"])[1], v.msg))

    def known(self, f, steps, hit):
        """the recorded defects: OGR ignores failures of the last writes to
        .shx/.shp made while it closes a shapefile, and a .prj it cannot open"""
        if f != "shp" or not hit:
            return None
        if all(x["kind"] in (D.OPENW, D.WRITE) and x["file"].endswith(".prj") for x in hit):
            return "ogr-prj-ignored"
        closed = None
        for k, x in enumerate(steps):
            if x["kind"] == D.CLOSE and x["file"].endswith(".dbf"):
                closed = k
        if closed is None:
            return None
        for k, x in enumerate(steps):
            if x["fault"] and not (k > closed and os.path.splitext(x["file"])[1] in (".shx", ".shp")):
                return None
        return "ogr-close-swallows"

    def arm(self, fault, base):
        """Set up the simulated disk. Positions are fractions of the undisturbed
        execution, so that a scenario stays meaningful when shrunk."""
        k = fault["k"]
        if k == "full":
            total = sum(max(x["ret"], 0) for x in base if x["kind"] == D.WRITE)
            self.disk.budget(int(fault["at"] * (total + 1)))
            return "disk full"
        suf = fault.get("suffix", "")
        kinds = {"write": D.WRITE, "open": D.OPENW, "close": D.CLOSE, "read": D.READ, "openr": D.OPENR | D.OPENW}[k]
        n = sum(1 for x in base if (x["kind"] & kinds) and x["file"].endswith(suf))
        at = int(fault["at"] * n)
        act = {"err": D.ERR, "short": D.SHORT, "eof": D.EOF}[fault.get("act", "err")]
        arg = ERRNO[fault.get("errno", "EIO")] if act == D.ERR else fault.get("len", 1)
        self.disk.rule(kinds, at, act, arg, bool(fault.get("sticky")), suf)
        return "%s%s %s%s" % ("persistent " if fault.get("sticky") else "single ", fault.get("act", "err"),
                              fault.get("errno", "") if act == D.ERR else "", " on " + k)


def shrink_ops(sc):
    """candidates with fewer or simpler operations, then simpler documents"""
    n = len(sc["ops"])
    if n > 1:
        for size in (n // 2, 1):
            for i in range(0, n, max(size, 1)):
                c = dict(sc, ops=sc["ops"][:i] + sc["ops"][i + max(size, 1):])
                if c["ops"]:
                    yield c
    for i, (f, s) in enumerate(sc["docs"]):
        for c in FORMATS[f].shrink(s):
            yield dict(sc, docs=sc["docs"][:i] + [[f, c]] + sc["docs"][i + 1:])


def gen_history(r, fmts, tier):
    """a history of healthy writes, crashed writes, reads and collections"""
    fmt = r.choice(fmts)
    docs = [[f, FORMATS[f].gen(r, small=r.random() < 0.5)] for f in [fmt] * r.randint(1, 3)]
    ops = []
    nslots = r.randint(1, 3)
    for _ in range(r.randint(2, 6)):
        c = r.random()
        d, slot = r.randrange(len(docs)), r.randrange(nslots)
        if c < 0.45:
            ops.append(["write", d, slot])
        elif c < 0.6:
            ops.append(["crashwrite", d, slot, round(r.random(), 4), r.choice([0, 0, 1, r.randint(1, 400)])])
            ops.append(["write", r.randrange(len(docs)), slot])
        elif c < 0.75:
            ops.append(["read", slot])
        elif c < 0.9:
            ops.append(["gc"])
        else:
            ops.append(["drop", d])
        if r.random() < 0.12:
            ops.append(["again", slot, r.random() < 0.5])
    if not any(o[0] == "write" for o in ops):
        ops.append(["write", 0, 0])
    return {"docs": docs, "ops": ops}


def run_history(sc, ctx):
    w = Files(ctx, None, sc["docs"])
    for op in sc["ops"]:
        k = op[0]
        if k == "write":
            w.write(op[1], op[2])
        elif k == "crashwrite":
            w.crashwrite(op[1], op[2], op[3], op[4])
        elif k == "read":
            w.read(op[1])
        elif k == "gc":
            w.gc()
        elif k == "drop":
            w.drop(op[1])
        elif k == "again":
            w.again(op[1], op[2])
    for f, s in sc["docs"]:
        ctx.mark("doc", f, shape(f, s))
    w.finish()


def shape(f, s):
    """the class of a document, for the coverage measure"""
    if f in ("gtiff", "aai"):
        return [s["dt"], s["bc"], min(s["ny"], 3), min(s["nx"], 3), s["nb"], s["nodata"] is None, s["kind"],
                s.get("compress"), sorted(s.get("co", {})), bool(s["t"][4]), s["crs"]]
    if f == "shp":
        return [s["g"][0]["t"], s["g"][0]["crs"], min(len(s["g"]), 5), sorted(len(g["v"]) for g in s["g"])[:2], len(s["g"][0]["p"])]
    if f == "geojson":
        g = s["g"]
        return [g["t"], g["crs"], s["force"], len(g["p"]), len(g.get("d", {})), len(g["v"]), len(g.get("subs", []))]
    return [len(s["w"]), len(s["t"]), len(s["r"])]
