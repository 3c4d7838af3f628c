"""Seeded thread schedules. A schedule is a list of
[fraction, delta, thread]: at step fraction*(length of the unswitched
execution)+delta control passes to the thread;
["at", place, occurrence, delta, thread]: likewise, with the step given as an
occurrence of one of the places of the code that several threads pass (all as
fractions), so that rare places are as likely as those in loops; with a delta
of "meet", control returns when another thread arrives at the same place."""
from .rt import Violation
from .sched import Deadlock, Scheduler, StepLimit, part

LIMIT = 6000000


def gen_switches(r, nthreads):
    out = []
    if r.random() < 0.6:
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            a, b = round(r.random(), 6), round(r.random(), 5)
            c = r.random()
            out.append(["at", a, b, "meet" if c < 0.3 else 0, -r.randint(1, nthreads - 1)])
            if c >= 0.5:
                out.append(["at", a, b, r.randint(1, r.choice([5, 20, 60, 300, 2000])), -r.randint(1, nthreads - 1)])
        return out
    style = r.random()
    for _ in range(r.choice([1, 2, 2, 3, 4, 6, 10])):
        f = round(r.random(), 5)
        t = r.randrange(nthreads)
        out.append([f, 0, t])
        if style < 0.5:
            # and back soon
            for _ in range(r.randint(1, 3)):
                out.append([f, r.randint(1, r.choice([5, 40, 400])), r.randrange(nthreads)])
    return out


def gen_schedules(r, nthreads, k):
    return [gen_switches(r, nthreads) for _ in range(k)]


def shared(places):
    """the places passed by several threads, in a fixed order, with the steps"""
    many = {k: v for k, v in places.items() if len({t for _, t in v}) > 1}
    return [[i for i, _ in v] for _, v in sorted((many or places).items())]


def run(fns, switches, total, ctx, pairs=None, places=None):
    sw, meet = {}, []
    for x in switches:
        if x[0] == "at":
            if not places:
                continue
            steps = part(places, x[1])
            at = part(steps, x[2])
            if x[3] == "meet":
                meet.append(at)
            else:
                at += x[3]
            t = x[4]
        else:
            f, d, t = x
            at = min(int(f * total), max(total - 1, 0)) + d
        sw.setdefault(at, t)
    s = Scheduler(sorted(sw.items()), limit=LIMIT, record=not switches, meet=meet)
    try:
        res = s.run(fns)
    except Deadlock as e:
        raise Violation("hang", str(e))
    for i, (v, e) in enumerate(res):
        if isinstance(e, (Deadlock, StepLimit)):
            raise Violation("hang", "thread %d: %s" % (i, e))
        if isinstance(e, Violation):
            raise e
    ctx.steps += s.n
    ctx.fault("thread switch", s.nswitch)
    for t in s.trail:
        ctx.mark("switch", *t[2:], pairs(t[0], t[1]) if pairs else None)
    return res, s


def shrink_schedules(sws):
    if len(sws) > 1:
        for s in sws:
            yield [s]
    else:
        for s in shrink_switches(sws[0]):
            yield [s]


def shrink_switches(sw):
    n = len(sw)
    for size in sorted({n // 2, 1}, reverse=True):
        if size:
            for i in range(0, n, size):
                yield sw[:i] + sw[i + size:]
