"""Histories produced by TLC from FftGen, turned into scenarios for the driver."""
import concurrent.futures as cf, json, os, random, re
import run, gen
from run import Broken
from scen import tiling, size, to3

CATS = [c for c, k in dict(new=1, set=2, setup=4, tune=1, mem=4, alloc=3, free=1, fill=5, read=9, compute=12, onlyremaps=3, oneremap=6, only1d=1,
                           remap=6, get=1).items() for _ in range(k)] + ["del", "bad"]


def pool(rng, length=34, misuse=True):
    """grids, tilings and communicators to draw from; tilings are shared so that data can go from one object to another"""
    P = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
    comms = [list(range(P))]
    if P > 1 and rng.random() < 0.6:
        comms.append(rng.sample(range(P), rng.randint(1, P)))
    kinds = rng.choice([["f3", "r3"], ["f2", "r2"], ["f3"], ["f2"], ["f2", "f3"]])
    probs = []
    for k in sorted(set(int(x[1]) for x in kinds)):
        for mem in comms:
            n = gen.grid(rng, k, 48, rng.choice(["short", "short", "middle", "cube"]))
            ts = [tiling(rng, n, len(mem)) for _ in range(2)]
            for _ in range(3):
                probs.append(dict(d=k, mem=mem, n=n + [1] * (3 - k), perm=gen.perm(rng, k), inb=[to3(b) for b in rng.choice(ts)],
                                  outb=[to3(b) for b in rng.choice(ts)], bad=0))
            if misuse:
                b = json.loads(json.dumps(probs[-1]))
                w = rng.randrange(4)
                if w == 0:
                    b["n"][rng.randrange(k)] = rng.choice([1, 0, 7, 11, 14])
                elif w == 1:
                    t = rng.choice([b["inb"], b["outb"]])
                    x = t[rng.randrange(len(t))]
                    d = rng.randrange(k)
                    x[2 * d + 1] = n[d] + rng.randrange(2)
                elif w == 2:
                    t = rng.choice([b["inb"], b["outb"]])
                    x = t[rng.randrange(len(t))]
                    x[2 * rng.randrange(k)] = -1
                else:
                    t = rng.choice([b["inb"], b["outb"]])
                    x = rng.choice([y for y in t if size(y)])
                    x[2 * rng.randrange(k) + 1] -= 1
                b["bad"] = 1
                probs.append(b)
    cats = [c for c in CATS if misuse or c != "bad"]
    return dict(P=P, len=length, comms=comms, kinds=kinds, probs=probs, cats=cats, maxobj=3, maxarr=4)


def simulate(pl, count, seed):
    path = os.path.join(run.scratch(), "pool%d_%d.json" % (seed, random.randrange(1 << 30)))
    json.dump(pl, open(path, "w"))
    r = run.tlc("FftGen", "SPECIFICATION Spec\nINVARIANTS TypeOK DataHeld Final\nCHECK_DEADLOCK FALSE\n", env={"FFT_POOL": path}, workers=1, heap="1g",
                extra=["-simulate", "num=%d" % count, "-depth", str(2 * pl["len"] + 4), "-seed", str(seed)])
    os.unlink(path)
    if "Error:" in r["out"]:
        raise Broken("TLC failed to generate histories:\n" + r["out"][-3000:])
    hs = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^("HIST .*")$', r["out"], re.M)]
    m = re.search(r"(\d+) states checked", r["out"]) or re.search(r"The number of states generated: (\d+)", r["out"])
    return hs, int(m.group(1)) if m else 0


def convert(rng, sid, pl, hist):
    """one history as a scenario"""
    s = gen.Prog(rng, sid, pl["P"])
    for i, mem in enumerate(pl["comms"][1:]):
        s.comm("G%d" % (i + 1), mem)
    cn = ["W"] + ["G%d" % (i + 1) for i in range(len(pl["comms"]) - 1)]
    s.objs_bufs = {}
    live = []

    def prob(e):
        p = pl["probs"][e["p"] - 1]
        k = p["d"]
        return p, p["n"][:k], [b[:2 * k] for b in p["inb"]], [b[:2 * k] for b in p["outb"]]

    for h in hist:
        e, bad = h["e"], h["cat"] == "bad"
        op, o = e["op"], e.get("o")
        if op == "new":
            s.new(o, e["kind"], e["api"], cn[e["comm"] - 1])
        elif op == "set":
            s.set(o, e["key"], e["val"])
        elif op == "setup":
            p, n, a, b = prob(e)
            s.setup(o, n, p["perm"], a, b)
        elif op == "tune":
            p, n, a, b = prob(e)
            s.tune(o, n, p["perm"], a, b, e["flag"], e["niter"], e["tmax"], e["tflag"])
        elif op == "rsetup":
            p, n, a, b = prob(e)
            s.rsetup(o, n, e["nq"], p["perm"], e["mem"], a, b)
            if e["mem"] == 0:
                s.nb += 1
                s.alloc("s%d" % s.nb, o + ".send")
                s.alloc("q%d" % s.nb, o + ".recv")
                s.objs_bufs[o] = ("s%d" % s.nb, "q%d" % s.nb)
        elif op == "mem":
            s.buffers(o)
        elif op == "setupmem":
            s.alloc("zs", 64)
            s.alloc("zr", 64)
            s.setupmem(o, "zs", "zr")
        elif op == "alloc":
            s.alloc(e["a"], o + (".fft" if s.objs[o]["kind"][0] == "f" else ".max"), 0)
        elif op == "free":
            s.free(e["a"])
        elif op == "fill":
            s.put(e["a"], o, e["side"], {"dft": None, "tok": "tok", "zero": "zero"}[e["fill"]] if e["fill"] != "dft" else rng.choice(["sparse", "sparse", "delta", "rnd"]))
        elif op == "read":
            N = 1
            for x in s.objs[o]["n"]:
                N *= x
            if e["e"] < 0:
                s.read(e["a"], o, e["side"])
            else:
                sn, sd = (gen.S0 if e["e"] else 1), 1
                if e["pw"] == 1:
                    sd = N
                elif e["pw"] == -1:
                    sn *= N
                s.read(e["a"], o, e["side"], sn, sd)
        elif op == "get":
            s.get(o, gen.STAT3 if s.objs[o]["kind"] == "f3" else gen.STAT2)
        elif op == "del":
            s.delete(o)
        elif op in ("compute", "onlyremaps", "oneremap", "only1d", "remap"):
            if bad:
                s.alloc("z", 64)
                e = dict(a="z", b="z", dir=rng.choice([1, -1]), which=rng.randint(1, 3), **e)
            if op == "compute":
                s.compute(o, e["a"], e["b"], e["dir"])
            elif op == "onlyremaps":
                s.onlyremaps(o, e["a"], e["b"], e["dir"])
            elif op == "oneremap":
                s.oneremap(o, e["a"], e["b"], e["dir"], e["which"])
            elif op == "only1d":
                s.only1d(o, e["a"], e["dir"])
            else:
                x, y = s.objs_bufs.get(o, ("-", "-"))
                s.remap(o, e["a"], e["b"], x, y)
        else:
            raise Broken("history with unknown call " + op)
    return s


def histories(seed, pools, per, length=34, misuse=True):
    """scenarios of the histories of several pools; also the number of states TLC visited"""
    pls = [pool(random.Random("pool/%s/%d" % (seed, i)), length, misuse) for i in range(pools)]
    out, states = [], 0
    with cf.ThreadPoolExecutor(run.CORES) as ex:
        rs = list(ex.map(lambda x: simulate(x[1], per, (int(seed) * 1000 + x[0]) % 2147483647), enumerate(pls)))
    for i, (hs, n) in enumerate(rs):
        states += n
        for j, h in enumerate(hs[:per]):
            rng = random.Random("hist/%s/%d/%d" % (seed, i, j))
            out.append(convert(rng, "spec-%s-%d-%d" % (seed, i, j), pls[i], h))
    return out, states


# ------------------------------------------------------------------ every tiling of small grids

SHAPES = {"quick": [[[2, 2, 1], 2], [[2, 2, 1], 3], [[3, 2, 1], 2], [[2, 3, 1], 3], [[2, 2, 2], 2], [[3, 2, 2], 2], [[2, 2, 2], 3]],
          "thorough": [[[2, 2, 1], 4], [[3, 3, 1], 3], [[2, 3, 2], 3], [[2, 4, 3], 2], [[4, 2, 3], 2]]}
_tilings = {}


def tilings(tier):
    if tier not in _tilings:
        sh = list(SHAPES["quick"]) + (SHAPES["thorough"] if tier == "thorough" else [])
        a, b = os.path.join(run.scratch(), "shapes.json"), os.path.join(run.scratch(), "tilings.json")
        json.dump(sh, open(a, "w"))
        r = run.tlc("FftSmall", "", env={"FFT_SHAPES": a, "FFT_OUT": b}, workers=1, heap="4g")
        if "No error" not in r["out"] or not os.path.exists(b):
            raise Broken("TLC failed to enumerate tilings:\n" + r["out"][-2000:])
        _tilings[tier] = [(n, P, t) for (n, P), t in zip(sh, json.load(open(b)))]
    return _tilings[tier]


class Small:
    """all problems of the small shapes: input tiling x output tiling x storage order, in a scattered order; options go round"""

    def __init__(self, tier, seed):
        self.items = []
        for i, (n, P, ts) in enumerate(tilings(tier)):
            k = 2 if n[2] == 1 else 3
            for a in range(len(ts)):
                for b in range(len(ts)):
                    for p in range(k):
                        self.items.append((i, a, b, p))
        random.Random("small/%s" % seed).shuffle(self.items)
        self.ts = tilings(tier)
        self.total = len(self.items)
        self.at = self.done = 0

    def scenarios(self, count, kind, tag):
        """count scenarios of several problems each; [] when everything has been covered"""
        out, by = [], {}
        while len(out) < count and self.at < len(self.items):
            q = self.items[self.at]
            self.at += 1
            key = self.ts[q[0]][1]
            by.setdefault(key, []).append(q)
            if len(by[key]) == 6:
                out.append(self.one(by.pop(key), kind, "small-%s-%d" % (tag, self.at)))
        if len(out) < count:
            out += [self.one(v, kind, "small-%s-e%d" % (tag, k)) for k, v in sorted(by.items())]
        elif by:
            self.items += [q for v in by.values() for q in v]
        return out

    def one(self, qs, kind, sid):
        self.done += len(qs)
        rng = random.Random(sid + kind)
        P = self.ts[qs[0][0]][1]
        s = gen.Prog(rng, sid, P)
        for j, (i, a, b, p) in enumerate(qs):
            n3, _, ts = self.ts[i]
            d = 2 if n3[2] == 1 else 3
            n = n3[:d]

            def boxes(t):
                return [x[:2 * d] if size(x[:2 * d]) else gen.empty_box(rng, n) for x in t]

            inb, outb = boxes(ts[a]), boxes(ts[b])
            o, x, y = "a%d" % j, "x%d" % j, "y%d" % j
            if kind == "r":
                nq, mem = rng.randint(1, 3), rng.randrange(2)
                s.mk(o, "r%d" % d, n, p, inb, outb, gen.api(rng), opts=dict(collective=rng.randrange(2), pack=rng.randrange(3)), nq=nq, mem=mem)
                inplace = rng.randrange(2)
                s.alloc(x, o + (".max" if inplace else ".in"))
                if not inplace:
                    s.alloc(y, o + ".out")
                s.put(x, o, "in", "tok")
                t = x if inplace else y
                s.move(o, x, t)
                s.rd(t, o, "out")
            else:
                c, e, k, m = rng.randrange(3), rng.randrange(2), rng.randrange(3), rng.randrange(4)
                s.mk(o, "f%d" % d, n, p, inb, outb, gen.api(rng), opts=dict(collective=c, exchange=e, pack=k, memory=int(m > 0)))
                s.alloc(x, o + ".fft")
                s.alloc(y, o + ".fft")
                s.put(x, o, "in", rng.choice(["sparse", "rnd"]))
                t = rng.choice([x, y])
                s.go(o, x, t, 1)
                s.rd(t, o, "out")
                u = rng.choice([x, y])
                s.go(o, t, u, -1)
                s.rd(u, o, "in")
            if rng.random() < 0.5:
                s.delete(o)
        return s
