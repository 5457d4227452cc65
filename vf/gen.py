"""Scenario families.  Each takes (rng, id, P or None, big) and returns one scenario."""
import random
from scen import Scn, tiling, sparse, size, grid_tiling, factorisations, empty_box

S0 = 262144
LONG = [8, 9, 10, 12, 15, 16, 18, 20, 24, 25, 27, 30, 32, 36, 40, 45, 48, 50, 54, 60, 64]
SHORT = [2, 3, 4, 5, 6]
MIDDLE = [2, 3, 4, 5, 6, 8, 9, 10, 12]


class Prog(Scn):
    """a scenario that knows what its arrays hold, so that every read is meaningful"""

    def __init__(self, rng, sid, P, **kv):
        kv.setdefault("seed", rng.randrange(1 << 20))
        kv.setdefault("send", rng.randrange(3))
        kv.setdefault("sched", rng.choice([0, 0, 0, 1, 2, 3]))
        kv.setdefault("early", rng.randrange(2))
        kv.setdefault("poison", 1)
        kv.setdefault("epoch", rng.choice([0, 4096]))
        if kv["sched"] == 3:
            kv.setdefault("starve", rng.randrange(P))
        Scn.__init__(self, sid, P, **kv)
        self.rng = rng
        self.c = {}                # array -> content
        self.nb = 0

    # objects ---------------------------------------------------------
    def mk(self, o, kind, n, perm, inb, outb, api="cpp", comm="W", opts=None, nq=2, mem=1, bufs=True):
        self.new(o, kind, api, comm)
        opts = dict(opts or {})
        ks = list(opts)
        self.rng.shuffle(ks)
        for k in ks:
            if kind[0] == "r" and k not in ("collective", "pack"):
                continue
            self.set(o, k, opts[k])
        if kind[0] == "f":
            self.setup(o, n, perm, inb, outb)
            if opts.get("memory", 1) == 0 and bufs:
                self.buffers(o)
        else:
            self.rsetup(o, n, nq, perm, mem, inb, outb)
            if mem == 0:
                self.nb += 1
                s, r = "s%d" % self.nb, "q%d" % self.nb
                self.alloc(s, o + ".send")
                self.alloc(r, o + ".recv")
                self.objs[o]["bufs"] = (s, r)
        self.objs[o].setdefault("scale", opts.get("scale", 1))
        self.objs[o].setdefault("remaponly", opts.get("remaponly", 0))
        return o

    def buffers(self, o):
        self.nb += 1
        s, r = "s%d" % self.nb, "q%d" % self.nb
        self.alloc(s, o + ".send")
        self.alloc(r, o + ".recv")
        self.setupmem(o, s, r)

    def opt(self, o, key, val):
        self.set(o, key, val)
        if key in ("scale", "remaponly"):
            self.objs[o][key] = val

    # content ---------------------------------------------------------
    def lay(self, o, side):
        ob = self.objs[o]
        return (o, side)

    def put(self, a, o, side, kind=None):
        ob = self.objs[o]
        boxes = ob["inb"] if side == "in" else ob["outb"]
        rng = self.rng
        N = 1
        for x in ob["n"]:
            N *= x
        if kind is None:
            kind = rng.choice(["sparse", "sparse", "sparse", "rnd", "delta"]) if ob["kind"][0] == "f" else "tok"
        if kind == "rnd" and N > 40:
            kind = "sparse"
        if kind == "tok":
            self.fill(a, o, side, "tok", rng.randrange(1, 1000), N * ob["nq"])
        elif kind == "zero":
            self.fill(a, o, side, "zero")
        elif kind == "rnd":
            self.fill(a, o, side, "rnd", rng.randrange(1 << 20), rng.choice([1, 3, 9]))
        else:
            cnt = 1 if kind == "delta" else rng.randint(2, 6)
            self.fill(a, o, side, "sparse", *sparse(rng, boxes, ob["mem"], cnt))
        self.c[a] = dict(k=kind if kind in ("tok", "zero") else "dft", e=0, pw=0, N=N)

    def putat(self, a, o, side, ent):
        N = 1
        for x in self.objs[o]["n"]:
            N *= x
        self.fill(a, o, side, "sparse", *ent)
        self.c[a] = dict(k="dft", e=0, pw=0, N=N)

    def go(self, o, a, b, d):
        """a transform"""
        self.compute(o, a, b, d)
        ob, c = self.objs[o], dict(self.c.get(a, dict(k="none")))
        if c["k"] == "dft" and not ob["remaponly"]:
            c["pw"] += (1 if c["e"] else 0) - (1 if d == -1 and ob["scale"] else 0)
            c["e"] = 1 - c["e"]
        elif c["k"] == "tok" and not ob["remaponly"]:
            c = dict(k="none")
        self.c[b] = c

    def move(self, o, a, b, d=1):
        ob = self.objs[o]
        if ob["kind"][0] == "r":
            s, r = ob.get("bufs", ("-", "-"))
            self.remap(o, a, b, s, r)
        else:
            self.onlyremaps(o, a, b, d)
        self.c[b] = dict(self.c.get(a, dict(k="none")))

    def readable(self, a):
        c = self.c.get(a, dict(k="none"))
        if c["k"] in ("tok", "zero"):
            return True
        if c["k"] != "dft":
            return False
        return abs(c["pw"]) <= 1 and c["N"] * (S0 if c["e"] else 1) < 2000000000

    def rd(self, a, o, side):
        c = self.c[a]
        if not self.readable(a):
            return
        if c["k"] in ("tok", "zero"):
            self.read(a, o, side)
            return
        sn, sd = (S0 if c["e"] else 1), 1
        if c["pw"] == 1:
            sd = c["N"]
        elif c["pw"] == -1:
            sn *= c["N"]
        self.read(a, o, side, sn, sd)


# ------------------------------------------------------------------ random ingredients

def procs(rng, lo=1, hi=8):
    return max(lo, min(hi, rng.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8, 8])))


def grid(rng, d, cap=260, style=None):
    style = style or rng.choice(["short", "short", "middle", "long", "cube"])
    tries = 0
    while True:
        tries += 1
        if style == "short" or tries > 500:
            n = [rng.choice(SHORT) for _ in range(d)]
        elif style == "middle":
            n = [rng.choice(MIDDLE) for _ in range(d)]
        elif style == "cube":
            n = [rng.choice(MIDDLE)] * d
            if rng.random() < 0.4:
                n[rng.randrange(d)] = rng.choice(SHORT)
        else:
            n = [rng.choice(SHORT[:3]) for _ in range(d)]
            n[rng.randrange(d)] = rng.choice(LONG)
        N = 1
        for x in n:
            N *= x
        if N <= cap:
            return n


def options(rng, user=True):
    o = {}
    if rng.random() < 0.8:
        o["collective"] = rng.randrange(3)
    if rng.random() < 0.7:
        o["exchange"] = rng.randrange(2)
    if rng.random() < 0.8:
        o["pack"] = rng.randrange(3)
    if user and rng.random() < 0.4:
        o["memory"] = rng.randrange(2)
    return o


def tiles(rng, n, P, dist=None):
    """input and output tilings: often different, sometimes equal or related"""
    a = tiling(rng, n, P, dist)
    x = rng.random()
    if x < 0.15:
        return a, [list(b) for b in a]
    if x < 0.3:
        b = [list(t) for t in a]
        rng.shuffle(b)
        return a, b
    if x < 0.42:
        return a, nudge(rng, a)
    return a, tiling(rng, n, P, dist)


def nudge(rng, a):
    """nearly the same tiling: two neighbours share their points otherwise, or two ranks swap tiles"""
    b = [list(t) for t in a]
    pairs = []
    for r in range(len(b)):
        for q in range(len(b)):
            if r == q or not size(b[r]) or not size(b[q]):
                continue
            df = [x for x in range(len(b[r]) // 2) if b[r][2 * x:2 * x + 2] != b[q][2 * x:2 * x + 2]]
            if len(df) == 1 and b[r][2 * df[0] + 1] + 1 == b[q][2 * df[0]]:
                pairs.append((r, q, df[0]))
    if pairs and rng.random() < 0.8:
        r, q, x = rng.choice(pairs)
        cut = rng.choice([c for c in range(b[r][2 * x], b[q][2 * x + 1] + 2) if c != b[q][2 * x]])
        b[r][2 * x + 1] = cut - 1
        b[q][2 * x] = cut
    elif len(b) > 1:
        r, q = rng.sample(range(len(b)), 2)
        b[r], b[q] = b[q], b[r]
    return b


def api(rng):
    return rng.choice(["cpp", "cpp", "c", "f"])


def perm(rng, d):
    return rng.randrange(3) if d == 3 else rng.randrange(2)


def pencils(rng, n, P, along):
    """a regular pencil decomposition along one dimension"""
    d = len(n)
    f = rng.choice(factorisations(P, d - 1)) if d > 1 else [P]
    np = f[:along] + [1] + f[along:]
    t = grid_tiling(n, np)
    return [b if size(b) else pencil_empty(rng, n, along) for b in t]


def pencil_empty(rng, n, along):
    b = []
    k = rng.choice([x for x in range(len(n)) if x != along]) if len(n) > 1 else 0
    for x, s in enumerate(n):
        if x == along:
            b += [0, s - 1]
        elif x == k:
            b += [0, -1]
        else:
            b += [0, s - 1]
    return b


def fast_tiles(rng, n, P, p):
    """tilings for which the library can skip its first or last remap"""
    a = pencils(rng, n, P, 0) if rng.random() < 0.7 else tiling(rng, n, P)
    last = len(n) - 1
    b = pencils(rng, n, P, last) if rng.random() < 0.7 else tiling(rng, n, P)
    if rng.random() < 0.25:
        a = nudge(rng, a)
    if rng.random() < 0.25:
        b = nudge(rng, b)
    return a, b


def plan(s, o, rng, big=1, d=None, P=None, comm="W", kind="f", opts=None, ap=None, cap=None, members=None, extra=None):
    d = d or rng.choice([2, 3, 3])
    P = members or s.P
    n = grid(rng, d, cap or (260 if big == 1 else 900))
    p = perm(rng, d)
    if rng.random() < 0.25:
        inb, outb = fast_tiles(rng, n, P, p)
    else:
        inb, outb = tiles(rng, n, P)
    if opts is None:
        opts = options(rng)
    opts = dict(opts)
    opts.update(extra or {})
    s.mk(o, kind + str(d), n, p, inb, outb, ap or api(rng), comm, opts)
    return o


# ------------------------------------------------------------------ families

def forward(rng, sid, P=None, big=1):
    s = Prog(rng, sid, P or procs(rng))
    plan(s, "a", rng, big)
    if rng.random() < 0.5:
        s.alloc("x", "a.fft")
        s.put("x", "a", "in")
        s.go("a", "x", "x", 1)
        s.rd("x", "a", "out")
    else:
        s.alloc("x", rng.choice(["a.in", "a.fft"]))
        s.alloc("y", "a.fft")
        s.put("x", "a", "in")
        s.go("a", "x", "y", 1)
        s.rd("y", "a", "out")
    return s


def backward(rng, sid, P=None, big=1):
    s = Prog(rng, sid, P or procs(rng))
    opts = options(rng)
    if rng.random() < 0.4:
        opts["scale"] = rng.randrange(2)
    plan(s, "a", rng, big, opts=opts)
    s.alloc("x", "a.fft")
    s.alloc("y", "a.fft")
    form = rng.randrange(4)
    if form == 0:                                    # backward alone
        s.put("x", "a", "out")
        b = rng.choice(["x", "y"])
        s.go("a", "x", b, -1)
        s.rd(b, "a", "in")
    elif form == 1:                                  # forward then backward
        s.put("x", "a", "in")
        b = rng.choice(["x", "y"])
        s.go("a", "x", b, 1)
        if rng.random() < 0.5:
            s.rd(b, "a", "out")
        c = rng.choice(["x", "y"])
        s.go("a", b, c, -1)
        s.rd(c, "a", "in")
    elif form == 2:                                  # backward then forward
        s.put("x", "a", "out")
        b = rng.choice(["x", "y"])
        s.go("a", "x", b, -1)
        c = rng.choice(["x", "y"])
        s.go("a", b, c, 1)
        s.rd(c, "a", "out")
    else:                                            # repeated, toggling the scaling
        s.put("x", "a", "in")
        cur = "x"
        for _ in range(rng.randint(2, 3)):
            for d in (1, -1):
                if rng.random() < 0.3:
                    s.opt("a", "scale", rng.randrange(2))
                b = rng.choice(["x", "y"])
                s.go("a", cur, b, d)
                cur = b
                if rng.random() < 0.5 or d == -1:
                    s.rd(cur, "a", "out" if d == 1 else "in")
            if not s.readable(cur):
                s.put(cur, "a", "in")
    return s


XL = [72, 75, 80, 90, 96, 100, 108, 120, 128, 135, 144, 150, 160, 180, 192, 200, 216, 225, 240]
ODD = [81, 125, 162, 243, 250, 256]


def large(rng, sid, P=None, big=1):
    """long dimensions, thousands of points, many ranks"""
    s = Prog(rng, sid, P or rng.choice([1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 16, 18, 24, 30]))
    d = rng.choice([2, 3, 3])
    cap = 2600 if big == 1 else 8000
    fft = rng.random() < 0.7
    while True:
        if not fft:
            n = [rng.randint(1, 60) for _ in range(d)]
        elif rng.random() < 0.6:
            n = [rng.choice(SHORT) for _ in range(d)]
            n[rng.randrange(d)] = rng.choice(XL + ODD)
        else:
            n = [rng.choice(MIDDLE + LONG) for _ in range(d)]
        N = 1
        for x in n:
            N *= x
        if 300 <= N <= cap:
            break
    p = perm(rng, d)
    inb, outb = fast_tiles(rng, n, s.P, p) if fft and rng.random() < 0.25 else tiles(rng, n, s.P)
    if not fft:
        nq = rng.choice([1, 2, 3, 4, 5, 7])
        mem = rng.randrange(2)
        s.mk("a", "r%d" % d, n, p, inb, outb, api(rng), opts=dict(collective=rng.randrange(2), pack=rng.randrange(3)), nq=nq, mem=mem)
        s.alloc("x", "a.max")
        s.alloc("y", "a.out")
        s.put("x", "a", "in", "tok")
        s.move("a", "x", "y")
        s.rd("y", "a", "out")
        s.move("a", "x", "x")
        s.rd("x", "a", "out")
        return s
    s.mk("a", "f%d" % d, n, p, inb, outb, api(rng), opts=options(rng))
    s.alloc("x", "a.fft")
    s.alloc("y", "a.fft")
    side = rng.choice(["in", "out"])
    boxes = inb if side == "in" else outb
    M = 86400
    if all(M % x == 0 for x in n):
        s.put("x", "a", side, rng.choice(["sparse", "delta"]))
    else:                                            # first points of tiles whose angles the specification knows
        cells = [m for m, b in zip(s.objs["a"]["mem"], boxes) if size(b) and all(b[2 * i] * M % n[i] == 0 for i in range(d))]
        ent = []
        for m in rng.sample(cells, min(len(cells), rng.randint(1, 3))):
            ent += [m, 0, rng.randint(1, 7), rng.randint(-7, 7)]
        s.putat("x", "a", side, ent)
    b = rng.choice(["x", "y"])
    s.go("a", "x", b, 1 if side == "in" else -1)
    if not (side == "out" and s.objs["a"]["scale"]):
        s.rd(b, "a", "out" if side == "in" else "in")
    c = rng.choice(["x", "y"])
    s.go("a", b, c, -1 if side == "in" else 1)
    s.rd(c, "a", side)
    return s


def huge(rng, sid, P=None, big=1):
    """ten thousand points and more, or dozens of ranks"""
    s = Prog(rng, sid, P or rng.choice([2, 3, 4, 4, 6, 8, 2, 3, 5, 6, 7, 8, 32, 48, 64]))
    d = rng.choice([2, 3])
    fft = rng.random() < 0.6
    lo, hi = (8000, 40000 if big == 1 else 100000) if s.P < 20 else (100, 9000)
    while True:
        if fft:
            n = [rng.choice([x for x in MIDDLE + LONG + XL if 86400 % x == 0]) for _ in range(d)]
            if d == 2 and rng.random() < 0.5:
                n[rng.randrange(2)] = rng.choice([320, 360, 384, 400, 480, 540, 600, 640, 675, 720, 800, 864, 900])
        else:
            n = [rng.randint(5, 300 if d == 2 else 60) for _ in range(d)]
        N = 1
        for x in n:
            N *= x
        if lo <= N <= hi:
            break
    p = perm(rng, d)
    inb, outb = tiles(rng, n, s.P)
    if not fft:
        s.mk("a", "r%d" % d, n, p, inb, outb, api(rng), opts=dict(collective=rng.randrange(2), pack=rng.randrange(3)),
             nq=rng.choice([1, 2]), mem=1)
        s.alloc("x", "a.max")
        s.alloc("y", "a.out")
        b = rng.choice(["x", "y"])
        s.put("x", "a", "in", "tok")
        s.move("a", "x", b)
        s.rd(b, "a", "out")
        return s
    s.mk("a", "f%d" % d, n, p, inb, outb, api(rng), opts=options(rng))
    s.alloc("x", "a.fft")
    s.alloc("y", "a.fft")
    side = rng.choice(["in", "out"])
    s.put("x", "a", side, rng.choice(["sparse", "delta"]))
    b = rng.choice(["x", "y"])
    s.go("a", "x", b, 1 if side == "in" else -1)
    if s.c[b]["pw"] == 0:
        s.read(b, "a", "out" if side == "in" else "in", S0, 1)
    c = rng.choice(["x", "y"])
    s.go("a", b, c, -1 if side == "in" else 1)
    if s.readable(c):
        s.rd(c, "a", side)
    return s


def optsweep(rng, sid, P=None, big=1):
    """one problem, many option settings"""
    s = Prog(rng, sid, P or procs(rng, 2))
    d = rng.choice([2, 3])
    n = grid(rng, d, 100 if big == 1 else 200)
    p = perm(rng, d)
    inb, outb = fast_tiles(rng, n, s.P, p) if rng.random() < 0.25 else tiles(rng, n, s.P)
    combos = [(c, e, k, m) for c in range(3) for e in range(2) for k in range(3) for m in range(2)]
    rng.shuffle(combos)
    if big == 1:
        combos = combos[:14]
    for i, (c, e, k, m) in enumerate(combos):
        o, x, y = "a%d" % i, "x%d" % i, "y%d" % i
        s.mk(o, "f%d" % d, n, p, inb, outb, api(rng), opts=dict(collective=c, exchange=e, pack=k, memory=m))
        s.alloc(x, o + ".fft")
        s.alloc(y, o + ".fft")
        s.put(x, o, "in", "sparse")
        s.go(o, x, y, 1)
        s.rd(y, o, "out")
        b = rng.choice([x, y])
        s.go(o, y, b, -1)
        s.rd(b, o, "in")
        s.delete(o)
        for a in (x, y):
            s.free(a)
    return s


def remaps(rng, sid, P=None, big=1, dist=None, cap=None):
    s = Prog(rng, sid, P or procs(rng))
    d = rng.choice([2, 3, 3])
    n = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11]) for _ in range(d)]
    while n[0] * n[1] * (n[2] if d == 3 else 1) > (cap or 240):
        n[rng.randrange(d)] = rng.choice([1, 2, 3])
    nq = rng.choice([1, 1, 2, 2, 3, 4, 5])
    p = perm(rng, d)
    inb, outb = tiles(rng, n, s.P, dist)
    opts = {}
    if rng.random() < 0.8:
        opts["collective"] = rng.randrange(2)
    if rng.random() < 0.8:
        opts["pack"] = rng.randrange(3)
    mem = rng.choice([1, 1, 0])
    s.mk("a", "r%d" % d, n, p, inb, outb, api(rng), opts=opts, nq=nq, mem=mem)
    inplace = rng.random() < 0.5
    if inplace:
        s.alloc("x", "a.max")
        s.put("x", "a", "in", "tok")
        s.move("a", "x", "x")
        s.rd("x", "a", "out")
    else:
        s.alloc("x", rng.choice(["a.in", "a.max"]))
        s.alloc("y", rng.choice(["a.out", "a.max"]))
        s.put("x", "a", "in", "tok")
        s.move("a", "x", "y")
        s.rd("y", "a", "out")
        s.rd("x", "a", "in")
    for _ in range(rng.randrange(3)):                # the plan is reusable
        y = "x" if inplace else "y"
        s.put("x", "a", "in", "tok")
        s.move("a", "x", y)
        s.rd(y, "a", "out")
    if rng.random() < 0.5 and p == 0:                # and back again with another plan
        o2 = {k: rng.randrange(2) for k in opts}
        s.mk("b", "r%d" % d, n, 0, outb, inb, api(rng), opts=o2, nq=nq, mem=rng.randrange(2))
        y = "x" if inplace else "y"
        s.move("b", y, y) if inplace else None
        if inplace:
            s.rd(y, "b", "out")
    return s


def stages(s, o, x, y, dr):
    """the remaps of a transform one at a time"""
    ob, rng = s.objs[o], s.rng
    same = all((size(i) == 0 and size(x) == 0) or (i == x and (ob["perm"] == 0 or size(i) == 1)) for i, x in zip(ob["inb"], ob["outb"]))
    if dr == -1 and same:
        dr = 1
    src, dst = ("in", "out") if dr == 1 else ("out", "in")
    s.put(x, o, src, "tok")
    cur, other = x, y
    ws = list(range(1, len(ob["n"]) + 2))
    if dr == -1:
        ws.reverse()
    inplace = rng.random() < 0.4
    for w in ws:
        if inplace or rng.random() < 0.3:
            s.oneremap(o, cur, cur, dr, w)
        else:
            s.oneremap(o, cur, other, dr, w)
            cur, other = other, cur
    s.c[cur] = dict(k="tok", e=0, pw=0, N=0)
    s.rd(cur, o, dst)


def session(rng, sid, P=None, big=1, comms=0.4, alter=0.35, aps=None):
    """a program using a bit of everything: objects of all kinds and languages, tuned or set up,
    on any communicators, settings changed at any time, any calls in any direction"""
    s = Prog(rng, sid, P or rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8]))
    where = [("W", list(range(s.P)))]
    if s.P > 1 and rng.random() < comms:
        for k in range(rng.randint(1, 2)):
            g = rng.sample(range(s.P), rng.randint(1, s.P))
            s.comm("G%d" % k, g)
            where.append(("G%d" % k, g))
        if rng.random() < 0.3:
            where.pop(0)
    s.clock([[1000]] * s.P)
    tidy = rng.random() < 0.3
    if tidy:
        s.mark("m0")
    at, left = {}, rng.randint(8, 16)
    cap = 60 if big == 1 else 150

    def create(i):
        o = "a%d" % i
        c, g = rng.choice(where)
        kind = rng.choice(["f3", "f3", "f3", "f2", "f2", "r3", "r2"])
        d = int(kind[1])
        ap = rng.choice(aps) if aps else api(rng)
        if kind[0] == "r":
            n = [rng.randint(1, 7) for _ in range(d)]
            inb, outb = tiles(rng, n, len(g))
            s.mk(o, kind, n, perm(rng, d), inb, outb, ap, c, dict(collective=rng.randrange(2), pack=rng.randrange(3)),
                 nq=rng.choice([1, 2, 3]), mem=rng.randrange(2))
        elif rng.random() < 0.15:
            n = grid(rng, d, cap)
            inb, outb = tiles(rng, n, len(g))
            s.new(o, kind, ap, c)
            opts = options(rng)
            for k, v in opts.items():
                s.set(o, k, v)
            s.tune(o, n, perm(rng, d), inb, outb, rng.choice([-1, 0, 1]), rng.randint(1, 2), 0, rng.randrange(2))
            s.objs[o].update(scale=1, remaponly=0)
            if opts.get("memory", 1) == 0:
                s.buffers(o)
        else:
            opts = options(rng)
            if rng.random() < 0.2:
                opts["scale"] = 0
            plan(s, o, rng, big, d=d, comm=c, opts=opts, ap=ap, cap=cap, members=len(g))
        for x in ("x", "y"):
            s.alloc(x + o, o + (".fft" if kind[0] == "f" else ".max"))
        at[o] = None

    made = 0
    for _ in range(rng.randint(1, 3)):
        create(made)
        made += 1
    while left > 0 and at:
        left -= 1
        o = rng.choice(sorted(at))
        ob, x, y = s.objs[o], "x" + o, "y" + o
        if rng.random() < alter:
            s.set(o, rng.choice(["collective", "exchange", "exchange", "pack"] if ob["kind"][0] == "f" else ["collective", "pack"]), rng.randrange(2))
        if ob["kind"][0] == "r":
            if rng.random() < 0.6 or at[o] is None:
                s.put(x, o, "in", "tok")
            else:
                s.put(x, o, "in", "zero")
            at[o] = 1
            b = rng.choice([x, y])
            s.move(o, x, b)
            s.rd(b, o, "out")
        else:
            act = rng.random()
            cur, side = at[o] or (None, None)
            if cur is None or not s.readable(cur) or act < 0.1:
                side = rng.choice(["in", "out"])
                cur = rng.choice([x, y])
                s.put(cur, o, side)
            dr = 1 if side == "in" else -1
            other = "out" if side == "in" else "in"
            b = rng.choice([x, y])
            at[o] = (cur, side)
            if act < 0.62:
                s.go(o, cur, b, dr)
                s.rd(b, o, other)
                at[o] = (b, other)
            elif act < 0.72:
                s.move(o, cur, b, dr)
                s.rd(b, o, other)
                at[o] = (b, other)
            elif act < 0.82:
                stages(s, o, x, y, rng.choice([1, -1]))
                at[o] = None
            elif act < 0.86:
                s.put(x, o, "in", "zero")
                s.only1d(o, x, rng.choice([1, -1]))
                s.rd(x, o, "in")
                at[o] = None
            elif act < 0.92:
                s.opt(o, rng.choice(["scale", "remaponly"]), rng.randrange(2))
            elif act < 0.95:
                s.get(o, STAT3 if len(ob["n"]) == 3 else STAT2)
            else:
                pass
        if rng.random() < 0.07:
            s.delete(o)
            del at[o]
        if made < 4 and rng.random() < 0.1:
            create(made)
            made += 1
    if tidy:                                         # everything is given back
        for o in rng.sample(sorted(at), len(at)):
            s.delete(o)
        for a in list(s.arrs):
            s.free(a)
            del s.arrs[a]
        s.mark("m1", "m0")
    return s


def foreign(rng, sid, P=None, big=1):
    """the same through the C and Fortran interfaces"""
    return session(rng, sid, P, big, aps=["c", "f"])


def groups(rng, sid, P=None, big=1):
    """the same on communicators other than the whole"""
    return session(rng, sid, P or rng.choice([2, 3, 4, 5, 6, 8]), big, comms=1.0)


def partial(rng, sid, P=None, big=1):
    """the remaps of a transform: all, one at a time, remap-only, and 1d transforms of zeros"""
    s = Prog(rng, sid, P or procs(rng))
    d = rng.choice([2, 3, 3])
    plan(s, "a", rng, big, d=d)
    ob = s.objs["a"]
    s.alloc("x", "a.fft")
    s.alloc("y", "a.fft")
    for _ in range(rng.randint(1, 3)):
        form = rng.choice(["all", "chain", "chain", "only", "zero", "mixed"])
        dr = rng.choice([1, -1])
        src, dst = ("in", "out") if dr == 1 else ("out", "in")
        if form == "all":
            s.put("x", "a", src, "tok")
            b = rng.choice(["x", "y"])
            s.move("a", "x", b, dr)
            s.rd(b, "a", dst)
        elif form == "only":
            s.opt("a", "remaponly", 1)
            s.put("x", "a", src, rng.choice(["tok", "sparse"]))
            b = rng.choice(["x", "y"])
            s.go("a", "x", b, dr)
            s.rd(b, "a", dst)
            s.opt("a", "remaponly", 0)
        elif form == "chain":
            stages(s, "a", "x", "y", dr)
        elif form == "zero":
            s.put("x", "a", "in", "zero")
            s.only1d("a", "x", dr)
            s.rd("x", "a", "in")
            if rng.random() < 0.5:
                s.go("a", "x", "x", 1)
                s.rd("x", "a", "out")
        else:
            s.put("x", "a", "in", "sparse")
            s.go("a", "x", "x", 1)
            s.move("a", "x", "y", -1)
            s.rd("y", "a", "in")
    return s


def empties(rng, sid, P=None, big=1):
    """ranks that own nothing, more ranks than lines or points"""
    P = P or rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 11, 12])
    if rng.random() < 0.25:
        return remaps(rng, sid, P, big, dist=rng.choice(["one", "some", "some", "grid", "slab"]), cap=rng.choice([4, 12, 60, 240]))
    s = Prog(rng, sid, P)
    d = rng.choice([2, 3])
    n = grid(rng, d, rng.choice([8, 16, 40, 120]), "short") if d == 3 else grid(rng, d, rng.choice([4, 10, 24, 60]), rng.choice(["short", "middle"]))
    p = perm(rng, d)
    styles = ["one", "some", "some", "grid", "slab", "pencil", "bisect"]
    inb, outb = tiling(rng, n, P, rng.choice(styles)), tiling(rng, n, P, rng.choice(styles))
    if rng.random() < 0.2:
        outb = [list(b) for b in inb]
    s.mk("a", "f%d" % d, n, p, inb, outb, api(rng), opts=options(rng))
    s.alloc("x", "a.fft")
    s.alloc("y", "a.fft")
    s.put("x", "a", "in")
    b = rng.choice(["x", "y"])
    s.go("a", "x", b, 1)
    s.rd(b, "a", "out")
    c = rng.choice(["x", "y"])
    s.go("a", b, c, -1)
    s.rd(c, "a", "in")
    if rng.random() < 0.3:
        s.put("x", "a", "in", "tok")
        s.move("a", "x", "y", 1)
        s.rd("y", "a", "out")
    return s


def memory(rng, sid, P=None, big=1):
    """arrays of exactly the advertised sizes, user buffers of exactly the returned sizes"""
    if rng.random() < 0.25:
        return remaps(rng, sid, P, big)
    s = Prog(rng, sid, P or procs(rng))
    opts = options(rng)
    opts["memory"] = rng.choice([0, 0, 1])
    opts["exchange"] = rng.randrange(2)
    plan(s, "a", rng, big, opts=opts)
    s.alloc("x", "a.fft")
    s.alloc("y", "a.fft")
    form = rng.randrange(3)
    if form == 0:
        s.put("x", "a", "in")
        s.go("a", "x", "x", 1)
        s.go("a", "x", "x", -1)
        s.rd("x", "a", "in")
    elif form == 1:
        s.alloc("i", "a.in")
        s.alloc("o", "a.out")
        s.put("i", "a", "in")
        s.go("a", "i", "y", 1)
        s.rd("i", "a", "in")
        s.rd("y", "a", "out")
        s.put("o", "a", "out")
        s.go("a", "o", "x", -1)
        s.rd("x", "a", "in")
        s.rd("o", "a", "out")
        s.rd("y", "a", "out")
    else:
        s.alloc("i", "a.in")
        s.put("i", "a", "in", "tok")
        s.move("a", "i", "y", 1)
        s.rd("i", "a", "in")
        s.rd("y", "a", "out")
        s.move("a", "y", "x", -1)
        s.rd("x", "a", "in")
        s.rd("y", "a", "out")
    return s


STAT3 = ["int:collective", "int:exchange", "int:pack", "int64:memusage", "string:fft1d", "string:precision",
         "int:npfast1", "int:npfast2", "int:npfast3", "int:npmid1", "int:npmid2", "int:npmid3",
         "int:npslow1", "int:npslow2", "int:npslow3", "int:npbrick1", "int:npbrick2", "int:npbrick3", "int:ntrial", "int:npertrial"]
STAT2 = ["int:collective", "int:exchange", "int:pack", "int64:memusage", "string:fft1d", "string:precision",
         "int:npfast1", "int:npfast2", "int:npslow1", "int:npslow2", "int:npbrick1", "int:npbrick2", "int:ntrial", "int:npertrial"]


def vast(rng, sid, d):
    """a grid of more than 2^31 points: everything but the data"""
    s = Prog(rng, sid, rng.choice([10, 11, 12, 13, 16]))
    n = [65536, 65536] if d == 2 else rng.choice([[2048, 2048, 1024], [1024, 2048, 2048], [2048, 1024, 2048]])
    t = []
    for k in (rng.randrange(d), rng.randrange(d)):
        t.append([sum([[0, n[j] - 1] if j != k else [i * n[k] // s.P, (i + 1) * n[k] // s.P - 1] for j in range(d)], []) for i in range(s.P)])
    opts = dict(options(rng, user=False), memory=0)
    s.new("a", "f%d" % d, api(rng), "W")
    for k, v in opts.items():
        s.set("a", k, v)
    s.setup("a", n, perm(rng, d), t[0], t[1])
    s.get("a", STAT3 if d == 3 else STAT2)
    s.delete("a")
    return s


def stats(rng, sid, P=None, big=1):
    s = Prog(rng, sid, P or rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]))
    d = rng.choice([2, 3])
    if rng.random() < 0.04:
        return vast(rng, sid, d)
    if rng.random() < 0.15:                          # buffers large enough to dominate the memory held
        n = [rng.choice([20, 24, 30]) for _ in range(d)] if d == 3 else [rng.choice([80, 100, 120]) for _ in range(d)]
        inb, outb = tiles(rng, n, s.P)
        s.mk("b", "f%d" % d, n, perm(rng, d), inb, outb, api(rng), opts=options(rng))
        s.get("b", STAT3 if d == 3 else STAT2)
    for i in range(rng.randint(1, 3)):
        o = "a%d" % i
        opts = options(rng)
        if rng.random() < 0.5:
            opts["exchange"] = 1
        plan(s, o, rng, big, d=d, opts=opts)
        s.get(o, STAT3 if d == 3 else STAT2)
        if rng.random() < 0.5:
            x = "x%d" % i
            s.alloc(x, o + ".fft")
            s.put(x, o, "in", "sparse")
            s.go(o, x, x, 1)
            s.rd(x, o, "out")
            s.get(o, STAT3 if d == 3 else STAT2)
    return s


def leaks(rng, sid, P=None, big=1):
    s = Prog(rng, sid, P or procs(rng))
    s.mark("m0")
    for k in range(rng.randint(1, 3)):
        o, x, y = "a%d" % k, "x%d" % k, "y%d" % k
        if rng.random() < 0.12:                      # never set up
            s.new(o, rng.choice(["f3", "f2", "r3", "r2"]), api(rng))
        elif rng.random() < 0.25:
            d = rng.choice([2, 3])
            n = [rng.randint(1, 6) for _ in range(d)]
            inb, outb = tiles(rng, n, s.P)
            s.mk(o, "r%d" % d, n, perm(rng, d), inb, outb, api(rng), opts=dict(collective=rng.randrange(2), pack=rng.randrange(3)),
                 nq=rng.choice([1, 2, 3]), mem=rng.randrange(2))
            s.alloc(x, o + ".max")
            s.put(x, o, "in", "tok")
            s.move(o, x, x)
            s.rd(x, o, "out")
            if rng.random() < 0.4:                   # settings changed after setup have no effect
                s.set(o, "collective", rng.randrange(2))
        else:
            d = rng.choice([2, 3])
            if rng.random() < 0.25:
                n = grid(rng, d, 120)
                inb, outb = tiles(rng, n, s.P)
                s.new(o, "f%d" % d, api(rng))
                opts = options(rng)
                for q, v in opts.items():
                    s.set(o, q, v)
                s.tune(o, n, perm(rng, d), inb, outb, rng.choice([-1, 0, 1]), rng.randint(1, 2), 0, rng.randrange(2))
                s.objs[o].update(scale=1, remaponly=0)
                if opts.get("memory", 1) == 0:
                    s.buffers(o)
            else:
                plan(s, o, rng, big, d=d)
            s.alloc(x, o + ".fft")
            s.put(x, o, "in", "sparse")
            s.go(o, x, x, 1)
            s.rd(x, o, "out")
            if rng.random() < 0.3:
                s.set(o, "memory", rng.randrange(2))
            if rng.random() < 0.3:
                s.set(o, rng.choice(["collective", "exchange", "pack"]), rng.randrange(2))
            s.go(o, x, x, -1)
        s.delete(o)
        for a in list(s.arrs):
            s.free(a)
            del s.arrs[a]
            s.c.pop(a, None)
        s.mark("m%d" % (k + 1), "m0")
    return s


def subcomms(rng, sid, P=None, big=1):
    """objects on sub-communicators and permuted communicators, several at once"""
    P = P or rng.choice([2, 3, 4, 5, 6, 8])
    s = Prog(rng, sid, P)
    order = list(range(P))
    rng.shuffle(order)
    cuts, groups = rng.randint(1, min(3, P)), []
    pts = sorted(rng.sample(range(1, P), min(cuts - 1, P - 1))) if cuts > 1 else []
    prev = 0
    for c in pts + [P]:
        groups.append(order[prev:c])
        prev = c
    if len(groups) > 1 and rng.random() < 0.3:
        groups.pop()                                 # some ranks stay outside
    names = []
    for i, g in enumerate(groups):
        s.comm("G%d" % i, g)
        names.append("G%d" % i)
    objs = []
    for i, g in enumerate(groups):
        o = "a%d" % i
        d = rng.choice([2, 3])
        n = grid(rng, d, 80)
        inb, outb = tiles(rng, n, len(g))
        if rng.random() < 0.2:
            s.mk(o, "r%d" % d, n, perm(rng, d), inb, outb, api(rng), "G%d" % i, dict(collective=rng.randrange(2), pack=rng.randrange(3)),
                 nq=rng.choice([1, 2, 3]), mem=rng.randrange(2))
        else:
            s.mk(o, "f%d" % d, n, perm(rng, d), inb, outb, api(rng), "G%d" % i, options(rng))
        objs.append(o)
    if rng.random() < 0.5:                           # and one on everybody
        d = rng.choice([2, 3])
        n = grid(rng, d, 80)
        inb, outb = tiles(rng, n, P)
        s.mk("w", "f%d" % d, n, perm(rng, d), inb, outb, api(rng), "W", options(rng))
        objs.append("w")
    for o in objs:
        s.alloc("x" + o, o + (".fft" if s.objs[o]["kind"][0] == "f" else ".max"))
        s.put("x" + o, o, "in")
    rng.shuffle(objs)
    for o in objs:
        x = "x" + o
        if s.objs[o]["kind"][0] == "f":
            s.go(o, x, x, 1)
        else:
            s.move(o, x, x)
    for o in objs:
        s.rd("x" + o, o, "out")
    for o in objs:
        if s.objs[o]["kind"][0] == "f":
            s.go(o, "x" + o, "x" + o, -1)
            s.rd("x" + o, o, "in")
    if rng.random() < 0.3:
        s.delete(objs[0])
    return s


def history(rng, sid, P=None, big=1):
    """several plans and arrays, calls in any order"""
    s = Prog(rng, sid, P or procs(rng, 1, 5))
    d = rng.choice([2, 3])
    n = grid(rng, d, 60 if big == 1 else 150)
    objs = {}
    for i in range(rng.randint(2, 3)):
        o = "a%d" % i
        if i and rng.random() < 0.3:
            n = grid(rng, d, 60)
        inb, outb = tiles(rng, n, s.P)
        s.mk(o, "f%d" % d, n, perm(rng, d), inb, outb, api(rng), opts=options(rng))
        objs[o] = 1
    arrs = {}
    for o in objs:
        for j in range(2):
            a = "x%s%d" % (o[1:], j)
            s.alloc(a, o + ".fft")
            arrs[a] = [o, None]
    for _ in range(rng.randint(6, 14 if big == 1 else 30)):
        o = rng.choice(sorted(objs))
        mine = [a for a in sorted(arrs) if arrs[a][0] == o]
        a = rng.choice(mine)
        act = rng.random()
        if arrs[a][1] is None or act < 0.15:
            side = rng.choice(["in", "out"])
            s.put(a, o, side, rng.choice(["sparse", "sparse", "delta", "zero"]))
            arrs[a][1] = side
            continue
        if act < 0.3:
            k = rng.choice(["scale", "remaponly", "collective", "exchange", "pack"])
            s.opt(o, k, rng.randrange(2))
            continue
        side = arrs[a][1]
        dr = 1 if side == "in" else -1
        b = rng.choice(mine)
        if act < 0.8:
            s.go(o, a, b, dr)
        else:
            s.move(o, a, b, dr)
        arrs[b][1] = "out" if dr == 1 else "in"
        if s.readable(b):
            if rng.random() < 0.7:
                s.rd(b, o, arrs[b][1])
        else:
            arrs[b][1] = None
        if a != b and rng.random() < 0.3 and s.readable(a):
            s.rd(a, o, arrs[a][1])
    for a in sorted(arrs):
        if arrs[a][1] and s.readable(a):
            s.rd(a, arrs[a][0], arrs[a][1])
    return s


def marathon(rng, sid, P=None, big=1):
    """one plan used many times, many objects in succession, many objects at once"""
    s = Prog(rng, sid, P or procs(rng, 1, 6))
    form = rng.randrange(4)
    d = rng.choice([2, 3])
    if form == 0:                                    # many transforms with one plan
        plan(s, "a", rng, big, d=d, opts=dict(options(rng), scale=1), cap=60)
        side = rng.choice(["in", "out"])
        s.alloc("x", "a.fft")
        s.alloc("y", "a.fft")
        s.put("x", "a", side)
        cur = "x"
        n = rng.randint(9, 24)
        for i in range(n):
            b = rng.choice(["x", "x", "y"])
            s.go("a", cur, b, 1 if side == "in" else -1)
            cur, side = b, "out" if side == "in" else "in"
            if i >= n - 2 or rng.random() < 0.1:
                s.rd(cur, "a", side)
    elif form == 1:                                  # many remaps with one plan, or the remaps of a transform
        if rng.random() < 0.5:
            plan(s, "a", rng, big, d=d, cap=60)
            s.alloc("x", "a.fft")
            s.alloc("y", "a.fft")
            side, cur = rng.choice(["in", "out"]), "x"
            s.put("x", "a", side, "tok")
            n = rng.randint(12, 40)
            for i in range(n):
                b = rng.choice(["x", "x", "y"])
                s.move("a", cur, b, 1 if side == "in" else -1)
                cur, side = b, "out" if side == "in" else "in"
                if i >= n - 2 or rng.random() < 0.1:
                    s.rd(cur, "a", side)
        else:
            g = [rng.randint(1, 6) for _ in range(d)]
            inb, outb = tiles(rng, g, s.P)
            s.mk("a", "r%d" % d, g, perm(rng, d), inb, outb, api(rng),
                 opts=dict(collective=rng.randrange(2), pack=rng.randrange(3)), nq=rng.choice([1, 2, 3, 5]), mem=rng.randrange(2))
            s.alloc("x", "a.max")
            s.alloc("y", "a.max")
            n = rng.randint(12, 30)
            for i in range(n):
                if i == 0 or i >= n - 2 or rng.random() < 0.2:
                    s.put("x", "a", "in", "tok")
                elif not fresh:
                    s.put("x", "a", "in", "zero")
                b = rng.choice(["x", "y"])
                s.move("a", "x", b)
                fresh = b == "y"
                if i >= n - 2 or rng.random() < 0.15:
                    s.rd(b, "a", "out")
    elif form == 2:                                  # one object after the other, possibly with the same name
        for i in range(rng.randint(6, 12)):
            o = "a%d" % i
            plan(s, o, rng, big, d=d, cap=24)
            x = "x%d" % i
            s.alloc(x, o + ".fft")
            s.put(x, o, "in", rng.choice(["sparse", "delta"]))
            s.go(o, x, x, 1)
            if i > 3:
                s.rd(x, o, "out")
            s.delete(o)
    else:                                            # many objects at once
        m = rng.randint(5, 9)
        for i in range(m):
            o = "a%d" % i
            plan(s, o, rng, big, d=rng.choice([2, 3]), cap=24)
            s.alloc("x%d" % i, o + ".fft")
            s.put("x%d" % i, o, "in", rng.choice(["sparse", "delta"]))
        at = ["in"] * m
        for _ in range(rng.randint(m, 3 * m)):
            i = rng.randrange(m)
            if at[i] == "in":
                s.go("a%d" % i, "x%d" % i, "x%d" % i, 1)
                at[i] = "out"
            elif rng.random() < 0.7:
                s.go("a%d" % i, "x%d" % i, "x%d" % i, -1)
                at[i] = "in"
            else:
                s.rd("x%d" % i, "a%d" % i, "out")
        for i in range(m):
            s.rd("x%d" % i, "a%d" % i, at[i])
    return s


def clocks(rng, P):
    """per-rank clock increments in microseconds, given in ns"""
    style = rng.choice(["equal", "random", "random", "jitter", "skew", "spike"])
    base = [rng.choice([1, 2, 5, 10, 20, 50]) * 1000 for _ in range(rng.choice([1, 7, 23, 40]))]
    out = []
    for r in range(P):
        if style == "equal":
            l = list(base)
        elif style == "random":
            l = [rng.randint(1, 60) * 1000 for _ in range(rng.choice([5, 17, 31, 40]))]
        elif style == "jitter":
            l = [x + rng.randint(0, 3) * 1000 for x in base]
        elif style == "skew":
            l = [x * (1 + r) for x in base]
        else:
            l = list(base)
            l[rng.randrange(len(l))] += rng.randint(50, 500) * 1000
        out.append(l)
    return out


def tuning(rng, sid, P=None, big=1):
    mode = rng.choice(["free", "free", "free", "work", "work", "limit", "exec", "exec"])
    s = Prog(rng, sid, P or (2 if mode == "limit" else rng.choice([1, 2, 3, 4, 4, 5, 6])))
    comm, mem = "W", list(range(s.P))
    if s.P > 2 and rng.random() < 0.25:
        mem = rng.sample(range(s.P), rng.randint(2, s.P))
        s.comm("G", mem)
        comm = "G"
    d = rng.choice([2, 3])
    n = grid(rng, d, 80)
    inb, outb = tiles(rng, n, len(mem))
    p = perm(rng, d)
    s.new("a", "f%d" % d, api(rng), comm)
    opts = options(rng)
    if mode == "limit":                              # the settings nothing is costlier than
        opts["collective"], opts["exchange"] = 1, 1
    for k, v in opts.items():
        s.set("a", k, v)
    if mode == "free":
        s.clock(clocks(rng, s.P))
    elif mode == "exec":
        w = rng.choice([10, 20, 30]) * 1000
        s.clockexec(w)
    else:
        w = rng.choice([10, 20, 30]) * 1000
        s.clockwork(w, rng.choice([0, 0, w, 3 * w]))
    niter = rng.randint(1, 4)
    tmax = rng.choice([0, 0, 0, 1000 * rng.randint(1, 100), 1000 * rng.randint(20, 2000), 1000 * rng.randint(100, 900), 900000000])
    if mode == "limit":
        tmax = w * rng.choice([rng.randint(100, 200), rng.randint(100, 1500), rng.randint(300, 4000)])
    flag, tflag = rng.choice([-1, 0, 0, 1]), rng.randrange(2)
    if mode == "exec":                               # k transforms and a bit
        k = rng.choice([rng.randint(1, 12), 10 * rng.randint(1, niter + 1), 30 * rng.randint(1, niter + 1), rng.randint(10, 35 * niter)])
        tmax = w * d * (1 if flag else 2) * k + w // rng.choice([2, 10])
    s.tune("a", n, p, inb, outb, flag, niter, tmax, tflag, budget=int(mode == "limit"))
    s.objs["a"].update(scale=1, remaponly=0)
    if opts.get("memory", 1) == 0:
        s.buffers("a")
    s.alloc("x", "a.fft")
    s.put("x", "a", "in")
    s.go("a", "x", "x", 1)
    s.rd("x", "a", "out")
    s.go("a", "x", "x", -1)
    s.rd("x", "a", "in")
    if rng.random() < 0.3:
        s.get("a", STAT3 if d == 3 else STAT2)
    return s


def misuse(rng, sid, P=None, big=1):
    """a legal prefix, then one call that must be refused"""
    if rng.random() < 0.012:
        return vast(rng, sid, rng.choice([2, 3]))
    s = Prog(rng, sid, P or rng.choice([1, 2, 3, 4, 5]))
    comm, mem = "W", list(range(s.P))
    if s.P > 1 and rng.random() < 0.25:
        mem = rng.sample(range(s.P), rng.randint(1, s.P))
        s.comm("G", mem)
        comm = "G"
    d = rng.choice([2, 3])
    kind = "f%d" % d
    ap = api(rng)
    n = grid(rng, d, 60)
    if rng.random() < 0.3:                           # something unrelated works first
        a, b = tiles(rng, n, s.P)
        s.mk("z", kind, n, perm(rng, d), a, b, api(rng), "W", options(rng))
        s.alloc("zx", "z.fft")
        s.put("zx", "z", "in", "sparse")
        s.go("z", "zx", "zx", 1)
        s.rd("zx", "z", "out")
    p = perm(rng, d)
    inb, outb = tiles(rng, n, len(mem))
    cases = ["prec", "twice", "dim1", "dim0", "factor", "factor", "index", "index", "tile", "tile", "vast", "tunetwice", "tuneflag", "tuneniter", "tunetmax",
             "tunetflag", "memearly", "memset", "early", "early", "nomem", "nomem", "remapearly", "tunebad", "memlate"]
    c = rng.choice(cases)
    if c == "index" and len(mem) > 3 and rng.random() < 0.4:
        c = "vast"
    if c == "prec":
        s.new("a", kind, ap, comm, rng.choice([0, 3, -1, "OTHER"]))
        return s
    if c == "remapearly":
        s.new("a", "r%d" % d, ap, comm)
        s.objs["a"].update(inb=inb, outb=outb, n=n, nq=1)
        s.alloc("x", 64)
        s.remap("a", "x", "x")
        return s
    opts = options(rng, user=False)
    s.new("a", kind, ap, comm)
    for k, v in opts.items():
        s.set("a", k, v)

    def bad_n():
        m = list(n)
        k = rng.randrange(d)
        m[k] = rng.choice([7, 11, 13, 14, 21, 22, 49, 26, 77, 35])
        return m

    def damage(t, what):
        t = [list(b) for b in t]
        m = rng.randrange(len(t))
        k = rng.randrange(d)
        if what == "index":
            w = rng.randrange(3)
            if w == 0:
                t[m][2 * k] = -1
            elif w == 1:
                t[m][2 * k + 1] = n[k] + rng.randrange(2)
            else:
                t[m][2 * k], t[m][2 * k + 1] = n[k] - 1 if n[k] > 2 else n[k], (n[k] - 3 if n[k] > 2 else n[k] - 2)
        return t

    def shrink(t):
        t = [list(b) for b in t]
        m = rng.choice([i for i, b in enumerate(t) if size(b)])
        k = rng.randrange(d)
        if rng.random() < 0.5:
            t[m][2 * k] += 1
        else:
            t[m][2 * k + 1] -= 1
        return t

    if c == "twice":
        s.setup("a", n, p, inb, outb)
        s.setup("a", n, p, inb, outb)
    elif c in ("dim1", "dim0"):
        m = list(n)
        m[rng.randrange(d)] = 1 if c == "dim1" else rng.choice([0, -3])
        a, b = inb, outb
        s.setup("a", m, p, a, b)
    elif c == "factor":
        s.setup("a", bad_n(), p, inb, outb)
    elif c == "index":
        if rng.random() < 0.5:
            s.setup("a", n, p, damage(inb, "index"), outb)
        else:
            s.setup("a", n, p, inb, damage(outb, "index"))
    elif c == "tile":
        if rng.random() < 0.5:
            s.setup("a", n, p, shrink(inb), outb)
        else:
            s.setup("a", n, p, inb, shrink(outb))
    elif c == "vast":                                # more than 2^31 points, and tiles that do not cover them
        n = rng.choice([[65536, 65536], [65536, 32768], [98304, 65536], [65536, 98304], [32768, 65536], [65536, 2 * 65536 - 32768]] if d == 2 else
                       [[2048, 2048, 1024], [1024, 2048, 2048], [4096, 1024, 1024], [1024, 1024, 4096], [1024, 1024, 2048], [2048, 1536, 2048], [4096, 4096, 4096]])
        two = len(mem) > 3 and rng.random() < 0.7
        if two:
            n = [65536, 65536] if d == 2 else rng.choice([[2048, 2048, 1024], [1024, 2048, 2048], [4096, 1024, 1024]])
        none = [sum([[0, x - 1] for x in n[:-1]], []) + [0, -1] for _ in mem]
        t = [list(b) for b in none]
        if rng.random() < 0.4:                       # covers what is left of the number of points in 32 bits
            t[rng.randrange(len(t))][-1] = n[-1] // rng.choice([2, 3, 4, 8]) - 1
        whole = [list(b) for b in none]
        whole[rng.randrange(len(t))][-1] = n[-1] - 1
        u = [t, rng.choice([t, whole])]
        if two:                                      # one claims everything, the others share it
            both, m, k = [list(b) for b in whole], rng.randrange(len(t)), 0
            for i in range(len(t)):
                both[i][-2:] = [0, n[-1] - 1] if i == m else [k * n[-1] // (len(t) - 1), (k + 1) * n[-1] // (len(t) - 1) - 1]
                k += i != m
            good = [list(b) for b in both]           # legal, one owns nothing
            good[m][-1] = -1
            u = [both, rng.choice([both, t, good, good])]
        if rng.random() < 0.5:
            u.reverse()
        s.setup("a", n, p, u[0], u[1])
    elif c == "tunetwice":
        s.setup("a", n, p, inb, outb)
        s.tune("a", n, p, inb, outb, 0, 1, 0, 0)
    elif c == "tuneflag":
        s.tune("a", n, p, inb, outb, rng.choice([-2, 2, 5]), 1, 0, 0)
    elif c == "tuneniter":
        s.tune("a", n, p, inb, outb, 0, rng.choice([0, -1]), 0, 0)
    elif c == "tunetmax":
        s.tune("a", n, p, inb, outb, 0, 1, -rng.randint(1, 1000), 0)
    elif c == "tunetflag":
        s.tune("a", n, p, inb, outb, 0, 1, 0, rng.choice([-1, 2]))
    elif c == "tunebad":
        s.tune("a", bad_n(), p, inb, outb, 0, 1, 0, 0)
    elif c == "memearly":
        s.alloc("x", 64)
        s.setupmem("a", "x", "x")
    elif c == "memset":
        s.setup("a", n, p, inb, outb)
        s.alloc("x", 64)
        s.setupmem("a", "x", "x")
    elif c == "memlate":
        s.setup("a", n, p, inb, outb)
        s.set("a", "memory", 0)
        s.alloc("x", 64)
        s.setupmem("a", "x", "x")
    elif c == "early":
        s.objs["a"].update(inb=inb, outb=outb, n=n, nq=2)
        s.alloc("x", 64)
        w = rng.randrange(4)
        dr = rng.choice([1, -1])
        if w == 0:
            s.compute("a", "x", "x", dr)
        elif w == 1:
            s.onlyremaps("a", "x", "x", dr)
        elif w == 2:
            s.oneremap("a", "x", "x", dr, rng.randint(1, d + 1))
        else:
            s.only1d("a", "x", dr)
    elif c == "nomem":
        s.set("a", "memory", 0)
        s.setup("a", n, p, inb, outb)
        s.alloc("x", "a.fft")
        w = rng.randrange(3)
        dr = rng.choice([1, -1])
        if w == 0:
            s.compute("a", "x", "x", dr)
        elif w == 1:
            s.onlyremaps("a", "x", "x", dr)
        else:
            s.oneremap("a", "x", "x", dr, rng.randint(1, d + 1))
    return s


def languages(rng, sid, P=None, big=1):
    """the same calls through C++, C and Fortran"""
    s = Prog(rng, sid, P or procs(rng, 1, 5))
    d = rng.choice([2, 3])
    tune = rng.random() < 0.25
    rem = rng.random() < 0.25
    n = grid(rng, d, 70)
    p = perm(rng, d)
    inb, outb = tiles(rng, n, s.P)
    opts = options(rng)
    ropts = dict(collective=rng.randrange(2), pack=rng.randrange(3))
    nq, mem = rng.choice([1, 2, 3]), rng.randrange(2)
    comm = "W"
    if rng.random() < 0.3:
        order = list(range(s.P))
        rng.shuffle(order)
        s.comm("G", order)
        comm = "G"
    names = {"cpp": "a", "c": "b", "f": "c"}
    for ap in ("cpp", "c", "f"):
        o = names[ap]
        x, y = "x" + o, "y" + o
        if rem:
            s.mk(o, "r%d" % d, n, p, inb, outb, ap, comm, ropts, nq=nq, mem=mem)
            s.alloc(x, o + ".max")
            s.put(x, o, "in", "tok")
            s.move(o, x, x)
            s.rd(x, o, "out")
            continue
        if tune:
            s.new(o, "f%d" % d, ap, comm)
            for k, v in opts.items():
                s.set(o, k, v)
            s.clock([[1000]] * s.P)
            s.tune(o, n, p, inb, outb, 0, 2, 0, 1)
            s.objs[o].update(scale=1, remaponly=0)
            if opts.get("memory", 1) == 0:
                s.buffers(o)
        else:
            s.mk(o, "f%d" % d, n, p, inb, outb, ap, comm, opts)
        s.alloc(x, o + ".fft")
        s.alloc(y, o + ".fft")
        s.put(x, o, "in", "sparse")
        b = rng.choice([x, y])
        s.go(o, x, b, 1)
        s.rd(b, o, "out")
        if rng.random() < 0.5:
            s.opt(o, "scale", 0)
        s.go(o, b, b, -1)
        s.rd(b, o, "in")
        s.opt(o, "remaponly", 1)
        s.put(x, o, "in", "tok")
        s.go(o, x, x, 1)
        s.rd(x, o, "out")
        s.opt(o, "remaponly", 0)
        for dr in rng.choice([[1], [-1], [1, -1]]):
            src, dst = ("in", "out") if dr == 1 else ("out", "in")
            if rng.random() < 0.5:
                s.put(x, o, src, "tok")
                s.move(o, x, y, dr)
                s.rd(y, o, dst)
            stages(s, o, x, y, dr)
        s.put(x, o, "in", "zero")
        s.only1d(o, x, rng.choice([1, -1]))
        s.rd(x, o, "in")
    if not rem:
        keys = list(STAT3 if d == 3 else STAT2)
        if tune:
            keys += ["int:ntrial", "int:npertrial", "ivec:cflags", "ivec:eflags", "ivec:pflags", "double:setuptime", "dvec:tfft", "dvec:t1d",
                     "dvec:tremap", "dvec:tremap1", "dvec:tremap2", "dvec:tremap3"] + (["dvec:tremap4"] if d == 3 else [])
        s.getcmp("a", "b", keys)
        s.getcmp("a", "c", keys)
    for ap in ("cpp", "c", "f"):
        s.delete(names[ap])
    return s


def optpair(rng, sid, P=None, big=1):
    """one problem under two or three settings, all kinds of calls"""
    s = Prog(rng, sid, P or procs(rng, 2))
    d = rng.choice([2, 3])
    n = grid(rng, d, 260 if big == 1 else 700)
    p = perm(rng, d)
    inb, outb = fast_tiles(rng, n, s.P, p) if rng.random() < 0.25 else tiles(rng, n, s.P)
    for i in range(rng.randint(2, 3)):
        o, x, y = "a%d" % i, "x%d" % i, "y%d" % i
        s.mk(o, "f%d" % d, n, p, inb, outb, api(rng),
             opts=dict(collective=rng.randrange(3), exchange=rng.randrange(2), pack=rng.randrange(3), memory=rng.randrange(2)))
        s.alloc(x, o + ".fft")
        s.alloc(y, o + ".fft")
        if rng.random() < 0.5:
            s.put(x, o, "in", "sparse")
            b = rng.choice([x, y])
            s.go(o, x, b, 1)
            s.rd(b, o, "out")
            if rng.random() < 0.5:
                c = rng.choice([x, y])
                s.go(o, b, c, -1)
                s.rd(c, o, "in")
        else:
            s.put(x, o, "out", "sparse")
            b = rng.choice([x, y])
            s.go(o, x, b, -1)
            s.rd(b, o, "in")
        if rng.random() < 0.5:
            dr = rng.choice([1, -1])
            s.put(x, o, "in" if dr == 1 else "out", "tok")
            b = rng.choice([x, y])
            s.move(o, x, b, dr)
            s.rd(b, o, "out" if dr == 1 else "in")
    return s


def schedules(rng, sid, P=None, big=1):
    """several plans used back to back with nothing in between to keep the ranks in step; some enumerate the completion orders"""
    enum = rng.random() < 0.25
    s = Prog(rng, sid, P or (rng.choice([2, 3, 3, 4]) if enum else rng.choice([2, 3, 4, 5, 6, 8])))
    if enum:
        s.kv["explore"] = 24 if big == 1 else 120
        s.kv["sched"] = 4
    objs = []
    for i in range(1 if enum else rng.randint(1, 3)):
        o = "a%d" % i
        d = rng.choice([2, 3])
        if rng.random() < 0.35:
            n = [rng.randint(1, 6) for _ in range(d)]
            inb, outb = tiles(rng, n, s.P)
            s.mk(o, "r%d" % d, n, perm(rng, d), inb, outb, api(rng), opts=dict(collective=rng.choice([0, 0, 1]), pack=rng.randrange(3)),
                 nq=rng.choice([1, 2, 3]), mem=rng.randrange(2))
        else:
            n = grid(rng, d, 60)
            inb, outb = tiles(rng, n, s.P)
            s.mk(o, "f%d" % d, n, perm(rng, d), inb, outb, api(rng), opts=dict(collective=rng.choice([0, 0, 1, 2]), exchange=rng.randrange(2),
                 pack=rng.randrange(3), memory=rng.randrange(2)))
        objs.append(o)
        x, y = "x%d" % i, "y%d" % i
        s.alloc(x, o + (".fft" if s.objs[o]["kind"][0] == "f" else ".max"))
        s.alloc(y, o + (".fft" if s.objs[o]["kind"][0] == "f" else ".max"))
        s.put(x, o, "in", "sparse" if s.objs[o]["kind"][0] == "f" else "tok")
    todo = []
    for i, o in enumerate(objs):
        todo += [i] * (1 if enum else rng.randint(1, 4))
    rng.shuffle(todo)
    side = {}
    for i in todo:
        o, x, y = objs[i], "x%d" % i, "y%d" % i
        b = rng.choice([x, y])
        if s.objs[o]["kind"][0] == "r":
            s.move(o, x, b)
            s.rd(b, o, "out")
            s.put(x, o, "in", "tok")
            continue
        at = side.get(i, ("in", x))
        dr = 1 if at[0] == "in" else -1
        s.go(o, at[1], b, dr)
        side[i] = ("out" if dr == 1 else "in", b)
        if rng.random() < 0.5:
            s.rd(b, o, side[i][0])
    for i in sorted(side):
        s.rd(side[i][1], objs[i], side[i][0])
    return s


FAMILIES = ["session", "forward", "backward", "optsweep", "remaps", "partial", "empties", "memory", "stats", "leaks", "subcomms", "history",
            "tuning", "misuse", "languages", "optpair", "schedules", "large", "marathon", "huge"]
