"""Python side of the simulated disk (simdisk.c, loaded with LD_PRELOAD)."""
import ctypes
import os

OPENR, OPENW, READ, WRITE, TRUNC, CLOSE, SYNC, RENAME, UNLINK = (1 << i for i in range(9))
ERR, SHORT, EOF, DROP, TORN = 1, 2, 3, 4, 5
KIND = {1: "open", 2: "openw", 4: "read", 8: "write", 16: "trunc", 32: "close", 64: "sync",
        128: "rename", 256: "unlink"}


class Disk(object):
    def __init__(self, so, root):
        self.lib = ctypes.CDLL(so)
        self.lib.sd_fires.restype = ctypes.c_long
        self.lib.sd_file.restype = ctypes.c_char_p
        self.lib.sd_root(root.encode())
        self.root = root
        self.reset()

    def reset(self):
        self.lib.sd_reset()

    def rule(self, kinds, nth, action, arg=0, sticky=False, suffix=""):
        return self.lib.sd_rule(kinds, nth, action, arg, 1 if sticky else 0, suffix.encode())

    def budget(self, n):
        self.lib.sd_budget(ctypes.c_longlong(n))

    def crash(self, at, torn=0, exit=True):
        """the process dies at its at-th mutating disk step; of that step, if
        it is a write, the first `torn` bytes still reach the file"""
        self.lib.sd_crash(at, torn, 1 if exit else 0)

    def nmut(self):
        return self.lib.sd_nmut()

    def dead(self):
        return bool(self.lib.sd_dead())

    def fired(self, r):
        return self.lib.sd_fired(r)

    def fires(self, action):
        return self.lib.sd_fires(action)

    def nsteps(self):
        return self.lib.sd_nsteps()

    def steps(self):
        out = (ctypes.c_longlong * 7)()
        res = []
        for i in range(self.lib.sd_nsteps()):
            if self.lib.sd_step(i, out) != 0:
                break
            res.append(dict(kind=out[0], file=self.lib.sd_file(out[1]).decode(), off=out[2],
                            n=out[3], ret=out[4], err=out[5], fault=out[6]))
        return res


def copyfiles(paths, dst):
    """The bytes the disk holds at this instant, under another name (what a
    process that died now would find after its restart)."""
    out = []
    for p in paths:
        q = os.path.join(dst, os.path.basename(p))
        if os.path.exists(p):
            with open(p, "rb") as f:
                b = f.read()
            with open(q, "wb") as f:
                f.write(b)
            out.append(q)
    return out
