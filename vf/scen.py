"""Scenarios: what the driver is told to do and, call by call, the event the specification sees."""
import random

SMOOTH = [2, 3, 4, 5, 6, 8, 9, 10, 12]


def to3(b):
    return list(b) if len(b) == 6 else list(b) + [0, 0]


class Scn:
    def __init__(self, sid, P, **kv):
        self.id, self.P, self.kv = sid, P, dict(kv)
        self.lines, self.events = [], []   # events: dict with 'ops': number of driver operations
        self.objs, self.arrs = {}, {}
        self.comms = {"W": list(range(P))}
        self.work = 0
        self.prec = None                   # set by the runner's configuration

    def text(self):
        kv = " ".join("%s=%s" % x for x in sorted(self.kv.items()))
        return "scn %s %d %s\n%s\n" % (self.id, self.P, kv, "\n".join(self.lines))

    def add(self, line, ev, ops=1):
        self.lines.append(line)
        ev["ops"] = ops
        self.events.append(ev)
        return ev

    # -------------------------------------------------------------- objects
    def comm(self, name, ranks):
        self.comms[name] = list(ranks)
        self.add("comm %s %s" % (name, " ".join(map(str, ranks))), dict(op="comm", o=name))

    def commfree(self, name):
        self.add("commfree %s" % name, dict(op="commfree", o=name))

    def new(self, o, kind, api="cpp", comm="W", prec=None):
        self.objs[o] = dict(kind=kind, api=api, comm=comm, mem=self.comms[comm], opt={})
        fft = kind[0] == "f"
        self.add("new %s %s %s %s%s" % (o, kind, api, comm, " %s" % prec if prec is not None else ""),
                 dict(op="new", o=o, kind=kind, api=api, mem=self.comms[comm],
                      prec=(prec if prec is not None else "PREC") if fft else 0))

    def set(self, o, key, val):
        self.objs[o]["opt"][key] = val
        self.add("set %s %s %d" % (o, key, val), dict(op="set", o=o, key=key, val=val))

    def _boxes(self, inb, outb):
        return " ".join(" ".join(map(str, list(i) + list(x))) for i, x in zip(inb, outb))

    def setup(self, o, n, perm, inb, outb):
        ob = self.objs[o]
        ob.update(n=list(n), perm=perm, inb=inb, outb=outb, nq=2)
        n3 = list(n) if len(n) == 3 else list(n) + [1]
        self.add("setup %s %s %d %s" % (o, " ".join(map(str, n)), perm, self._boxes(inb, outb)),
                 dict(op="setup", o=o, n=n3, perm=perm, inb=[to3(b) for b in inb], outb=[to3(b) for b in outb], nq=2, memflag=1))

    def rsetup(self, o, n, nq, perm, mem, inb, outb):
        ob = self.objs[o]
        ob.update(n=list(n), perm=perm, inb=inb, outb=outb, nq=nq, memflag=mem)
        n3 = list(n) if len(n) == 3 else list(n) + [1]
        self.add("setup %s %d %d %d %s" % (o, nq, perm, mem, self._boxes(inb, outb)),
                 dict(op="setup", o=o, n=n3, perm=perm, inb=[to3(b) for b in inb], outb=[to3(b) for b in outb], nq=nq, memflag=mem))

    def tune(self, o, n, perm, inb, outb, flag, niter, tmax_ns, tflag, budget=0):
        ob = self.objs[o]
        ob.update(n=list(n), perm=perm, inb=inb, outb=outb, nq=2)
        n3 = list(n) if len(n) == 3 else list(n) + [1]
        self.lines.append("tune %s %s %d %d %d %d %d %s" % (o, " ".join(map(str, n)), perm, flag, niter, tmax_ns, tflag, self._boxes(inb, outb)))
        self.add("get %s int:collective int:exchange int:pack int:ntrial int:npertrial ivec:cflags ivec:eflags ivec:pflags dvec:tfft dvec:t1d dvec:tremap dvec:tremap1 dvec:tremap2 dvec:tremap3 %s double:besttime double:setuptime int:cbest int:ebest int:pbest" % (o, "dvec:tremap4" if len(n) == 3 else "dvec:tremap3"),
                 dict(op="tune", o=o, n=n3, perm=perm, inb=[to3(b) for b in inb], outb=[to3(b) for b in outb], nq=2, memflag=1,
                      flag=flag, niter=niter, tmax=tmax_ns, tflag=tflag, work=self.work, budget=budget), ops=2)

    def clockwork(self, data, comm):
        self.work = 1
        self.add("clock work %d %d" % (data, comm), dict(op="clock", o=""))

    def clockexec(self, each):
        self.work = 2
        self.add("clock exec %d" % each, dict(op="clock", o=""))

    def clock(self, incs):
        self.work = 0
        self.add("clock " + " | ".join(" ".join(map(str, x)) for x in incs), dict(op="clock", o=""))

    def setupmem(self, o, s, r):
        self.add("setupmem %s %s %s" % (o, s, r), dict(op="setupmem", o=o))

    def delete(self, o):
        self.add("del %s" % o, dict(op="del", o=o))

    # -------------------------------------------------------------- arrays
    def alloc(self, a, count, mis=0):
        self.arrs[a] = count
        self.add("alloc %s %s %d" % (a, count, mis), dict(op="alloc", a=a, o=""))

    def free(self, a):
        self.add("free %s" % a, dict(op="free", a=a, o=""))

    def fill(self, a, o, side, kind, *args):
        ev = dict(op="fill", a=a, o=o, side=side, fill=kind, base=0, stride=0)
        if kind == "tok":
            ev["base"], ev["stride"] = args
        self.add("fill %s %s.%s %s %s" % (a, o, side, kind, " ".join(map(str, args))), ev)

    def read(self, a, o, side, sn=1, sd=1):
        self.add("read %s %s.%s %d %d" % (a, o, side, sn, sd), dict(op="read", a=a, o=o, side=side, sn=sn, sd=sd))

    # -------------------------------------------------------------- calls
    def compute(self, o, a, b, d):
        self.add("compute %s %s %s %d" % (o, a, b, d), dict(op="compute", o=o, a=a, b=b, dir=d))

    def onlyremaps(self, o, a, b, d):
        self.add("onlyremaps %s %s %s %d" % (o, a, b, d), dict(op="onlyremaps", o=o, a=a, b=b, dir=d))

    def oneremap(self, o, a, b, d, w):
        self.add("oneremap %s %s %s %d %d" % (o, a, b, d, w), dict(op="oneremap", o=o, a=a, b=b, dir=d, which=w))

    def only1d(self, o, a, d):
        self.add("only1d %s %s %d" % (o, a, d), dict(op="only1d", o=o, a=a, dir=d))

    def remap(self, o, a, b, s="-", r="-"):
        self.add("remap %s %s %s %s %s" % (o, a, b, s, r), dict(op="remap", o=o, a=a, b=b, dir=1))

    def get(self, o, keys):
        self.add("get %s %s" % (o, " ".join(keys)), dict(op="get", o=o, keys=[k.split(":")[1] for k in keys]))

    def getcmp(self, o1, o2, keys):
        """the same queries on two objects, whose answers must agree"""
        k = " ".join(keys)
        self.lines.append("get %s %s" % (o1, k))
        self.add("get %s %s" % (o2, k), dict(op="getcmp", o=o1, o2=o2, keys=[x.split(":")[1] for x in keys]), ops=2)

    def mark(self, name, same=""):
        self.add("mark", dict(op="mark", o="", name=name, same=same))

    def barrier(self):
        self.add("barrier", dict(op="barrier", o=""))


# ------------------------------------------------------------------ tilings

def empty_box(rng, n):
    b = []
    k = rng.randrange(len(n))
    for d, s in enumerate(n):
        lo = rng.randint(0, s - 1)
        hi = rng.randint(lo, s - 1)
        if d == k or rng.random() < 0.2:
            lo = rng.randint(0, s)
            hi = lo - 1
        b += [lo, hi]
    return b


def bisect(rng, box, P, dims):
    """split a box into P boxes, some possibly None when points run out"""
    if P == 1:
        return [box]
    ext = [box[2 * d + 1] - box[2 * d] + 1 for d in range(dims)]
    cand = [d for d in range(dims) if ext[d] > 1]
    if not cand:
        r = [box] + [None] * (P - 1)
        return r
    d = rng.choice(cand)
    pa = rng.randint(1, P - 1)
    if rng.random() < 0.5:
        pa = P // 2
    cut = rng.randint(1, ext[d] - 1)
    if rng.random() < 0.5:
        cut = max(1, min(ext[d] - 1, round(ext[d] * pa / P)))
    a, b = list(box), list(box)
    a[2 * d + 1] = box[2 * d] + cut - 1
    b[2 * d] = box[2 * d] + cut
    return bisect(rng, a, pa, dims) + bisect(rng, b, P - pa, dims)


def grid_tiling(n, np):
    """regular decomposition np[0] x np[1] x ..."""
    boxes = []
    dims = len(n)
    idx = [0] * dims
    total = 1
    for x in np:
        total *= x
    for r in range(total):
        q, b = r, []
        for d in range(dims):
            i = q % np[d]
            q //= np[d]
            b += [i * n[d] // np[d], (i + 1) * n[d] // np[d] - 1]
        boxes.append(b)
    return boxes


def factorisations(P, dims):
    if dims == 1:
        return [[P]]
    out = []
    for a in range(1, P + 1):
        if P % a == 0:
            out += [[a] + f for f in factorisations(P // a, dims - 1)]
    return out


def tiling(rng, n, P, style=None):
    dims = len(n)
    style = style or rng.choice(["bisect", "bisect", "grid", "slab", "pencil", "one", "some", "shuffle", "roundrobin"])
    full = []
    for s in n:
        full += [0, s - 1]
    if style in ("bisect", "shuffle"):
        t = bisect(rng, full, P, dims)
    elif style == "grid":
        t = grid_tiling(n, rng.choice(factorisations(P, dims)))
    elif style == "slab":
        d = rng.randrange(dims)
        np = [1] * dims
        np[d] = P
        t = grid_tiling(n, np)
    elif style == "pencil":
        d = rng.randrange(dims)
        f = rng.choice(factorisations(P, dims - 1)) if dims > 1 else [P]
        np = f[:d] + [1] + f[d:]
        t = grid_tiling(n, np)
    elif style == "one":
        t = [full] + [None] * (P - 1)
        rng.shuffle(t)
    elif style == "some":
        k = rng.randint(1, P)
        t = bisect(rng, full, k, dims) + [None] * (P - k)
        rng.shuffle(t)
    else:
        k = rng.randint(1, P)
        t = bisect(rng, full, P, dims)
        t = t[k:] + t[:k]
    if style == "shuffle":
        rng.shuffle(t)
    out = []
    for b in t:
        if b is None or any(b[2 * d + 1] < b[2 * d] for d in range(dims)):
            if b is None:
                b = empty_box(rng, n)
            else:
                # a degenerate piece of a regular decomposition is already empty; keep its form when legal
                ok = all(b[2 * d] <= b[2 * d + 1] + 1 and b[2 * d] >= 0 and b[2 * d + 1] < n[d] for d in range(dims))
                if not ok:
                    b = empty_box(rng, n)
        out.append(b)
    return out


def size(b):
    s = 1
    for d in range(len(b) // 2):
        s *= max(0, b[2 * d + 1] - b[2 * d] + 1)
    return s


def sparse(rng, boxes, mem, cnt, amp=7):
    """entries rank idx re im, positions local to the owner"""
    cells = [(m, x) for m, b in zip(mem, boxes) for x in range(size(b))]
    out = []
    for m, x in rng.sample(cells, min(cnt, len(cells))):
        re = im = 0
        while re == 0 and im == 0:
            re, im = rng.randint(-amp, amp), rng.randint(-amp, amp)
        out += [m, x, re, im]
    return out
