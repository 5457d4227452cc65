"""developer's tool: trial.py FAMILY COUNT [SEED] [CFGS]"""
import sys, random, time
import run, gen
fams = sys.argv[1].split(",") if sys.argv[1] != "all" else gen.FAMILIES
n = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
cfgs = sys.argv[4].split(",") if len(sys.argv) > 4 else list(run.CONFIGS)
jobs = []
for f in fams:
    for i in range(n):
        rng = random.Random("%s/%d/%d" % (f, seed, i))
        jobs.append((cfgs[i % len(cfgs)], getattr(gen, f)(rng, "%s%d" % (f, i))))
t = time.time(); bins = run.build(cfgs); print("build %.1f" % (time.time() - t))
t = time.time(); raw = run.execute(jobs, bins); print("run %.1f" % (time.time() - t))
pairs = run.traces_of(jobs, raw); tr = [t for _, t in pairs]
t = time.time(); v, r = run.judge(tr); print("tlc %.1f" % (time.time() - t), r["generated"], r["distinct"])
bad = 0
for (c, s), t in pairs:
    x = v[t["id"]]
    if not x[0]:
        bad += 1
        if bad <= 25: print(c, s.id, x[1], s.events[x[1] - 1]["op"] if x[1] <= len(s.events) else "end", x[2])
print("%d rejected of %d" % (bad, len(jobs)))
