"""Builds the harness from the current sources, runs scenarios, and lets TLC judge what was recorded."""
import atexit, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VF_SRC", "/repo/src")
CORES = int(os.environ.get("VF_CORES", "8"))
CONFIGS = {"kd": ("kiss", "double"), "ks": ("kiss", "single"), "wd": ("fftw3", "double"), "ws": ("fftw3", "single")}
JAR = "/opt/veriftools/tla/tla2tools.jar"


# what fresh memory holds: as integers negative, huge, large
FILL = {"kd": 203, "ks": 127, "wd": 1, "ws": 203}


class Broken(Exception):
    """the machinery itself failed: neither held nor violated"""


_scratch = []


def scratch():
    if not _scratch:
        base = os.path.join(ROOT, ".work")
        os.makedirs(base, exist_ok=True)
        d = tempfile.mkdtemp(prefix="run", dir=base)
        _scratch.append(d)
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _scratch[0]


def build(cfgs):
    """compile the harness for the configurations; returns name -> binary"""
    out = {}
    procs = []
    for c in cfgs:
        d = os.path.join(scratch(), "bin_" + c)
        exe = os.path.join(d, "fsim")
        out[c] = exe
        if os.path.exists(exe):
            continue
        cached = os.environ.get("VF_BIN")
        if cached and os.path.exists(os.path.join(cached, c, "fsim")):
            out[c] = os.path.join(cached, c, "fsim")
            continue
        fft, prec = CONFIGS[c]
        log = open(os.path.join(scratch(), "build_%s.log" % c), "w")
        procs.append((c, subprocess.Popen(["bash", os.path.join(ROOT, "harness", "build.sh"), d, SRC, fft, prec],
                                          stdout=log, stderr=subprocess.STDOUT), log.name))
    for c, p, log in procs:
        if p.wait() != 0:
            raise Broken("harness build failed for %s:\n%s" % (c, open(log).read()[-3000:]))
    return out


_n = [0]


def _shard(exe, scns, timeout):
    _n[0] += 1
    base = os.path.join(scratch(), "sh%d_%d" % (os.getpid(), _n[0]))
    with open(base + ".txt", "w") as f:
        for s in scns:
            f.write(s.text())
    try:
        p = subprocess.run([exe, base + ".txt", base + ".jsonl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, SIM_HANG_S=os.environ.get("SIM_HANG_S", "10"),
                                    ASAN_OPTIONS="max_allocation_size_mb=3000:malloc_fill_byte=%d" % FILL.get(os.path.basename(os.path.dirname(exe))[-2:], 203)))
    except subprocess.TimeoutExpired:
        raise Broken("harness did not finish %d scenarios in %d s" % (len(scns), timeout))
    res, done = {}, False
    if os.path.exists(base + ".jsonl"):
        for line in open(base + ".jsonl", errors="replace"):
            r = json.loads(line)
            if "done" in r:
                done = True
            else:
                k = r.get("variant", 0)
                res[r["id"] if k == 0 else "%s~%d" % (r["id"], k)] = r
    if not done:
        raise Broken("harness stopped (%d): %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
    for e in (".txt", ".jsonl"):
        os.unlink(base + e)
    return res


def execute(jobs, bins, timeout=800):
    """jobs: list of (cfg, Scn) with distinct ids; returns id -> raw record"""
    per = {}
    for c, s in jobs:
        per.setdefault(c, []).append(s)
    shards = []
    total = sum(len(v) for v in per.values())
    size = max(1, min(40, -(-total // (CORES * 2))))
    for c, ss in per.items():
        for i in range(0, len(ss), size):
            shards.append((c, ss[i:i + size]))
    out = {}
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(lambda x: _shard(bins[x[0]], x[1], timeout), shards):
            out.update(r)
    if sum(1 for k in out if "~" not in k) != total:
        raise Broken("%d of %d scenarios recorded" % (len(out), total))
    return out


def clean(t):
    t = re.sub(r"\s+", " ", t or "").strip()
    t = re.sub(r"[^A-Za-z0-9 _.,:;/()<>=+*'-]", "?", t)
    return t[:200]


def traces_of(jobs, out):
    """(job, trace) for every recorded run; runs skipped after repeated hangs are left out"""
    res = []
    for c, s in jobs:
        k = 0
        while True:
            r = out.get(s.id if k == 0 else "%s~%d" % (s.id, k))
            if r is None:
                break
            if not r.get("skipped"):
                t = trace(c, s, r)
                if k:
                    t["id"] += "~%d" % k
                res.append(((c, s), t))
            k += 1
    return res


def trace(cfg, s, raw):
    """what the specification sees of one recorded run"""
    fft, prec = CONFIGS[cfg]
    pnum = 2 if prec == "double" else 1
    opev = []                      # operation index -> event index
    for i, e in enumerate(s.events):
        opev += [i] * e["ops"]
    done = min(len(r["ev"]) for r in raw["ranks"]) if raw["ranks"] else 0
    evs, full, op = [], 0, 0
    for i, e in enumerate(s.events):
        x = {k: v for k, v in e.items() if k != "ops"}
        if x.get("prec") == "PREC":
            x["prec"] = pnum
        elif x.get("prec") == "OTHER":
            x["prec"] = 3 - pnum
        if op + e["ops"] <= done:
            if e["ops"] == 1:
                x["res"] = [r["ev"][op] for r in raw["ranks"]]
            elif e["op"] == "getcmp":
                x["res"] = [dict(m=r["ev"][op].get("m", 0), v1=r["ev"][op].get("v", []), v2=r["ev"][op + 1].get("v", [])) for r in raw["ranks"]]
            else:                  # tune followed by its queries
                res = []
                for r in raw["ranks"]:
                    f = dict(r["ev"][op])
                    g = r["ev"][op + 1]
                    if g.get("m", 0) and f.get("m", 0):
                        v = g["v"]
                        f.update(best=v[0:3], nt=v[3], np=v[4], cf=v[5], ef=v[6], pf=v[7], tf=v[8], t1=v[9], tr=v[10], tr1=v[11], tr2=v[12], tr3=v[13], tr4=v[14], bt=v[15], st=v[16], found=v[17:20])
                    res.append(f)
                x["res"] = res
            full += 1
            evs.append(x)
            op += e["ops"]
        else:
            evs.append(x)
            break
    ranks = []
    for r in raw["ranks"]:
        o = r.get("op", -1)
        ranks.append(dict(st=r["st"], code=r.get("code", 0), fin=int(r.get("fin", 0)),
                          op=opev[o] if 0 <= o < len(opev) else len(s.events), txt=clean(r.get("out", ""))))
    notes = [clean(x) for x in raw.get("notes", [])]
    for i, r in enumerate(raw["ranks"]):
        notes += ["rank %d: %s" % (i, clean(x)) for x in r.get("notes", [])]
    return dict(id="%s/%s" % (cfg, s.id), P=s.P, prec=pnum, fft1d={"kiss": "KISS", "fftw3": "FFTW3"}[fft], ev=evs, full=full,
                end=dict(verdict=raw["verdict"], orphans=raw["orphan_sends"] + raw["orphan_recvs"] + raw["orphan_colls"],
                         notes=notes, ranks=ranks))


# ------------------------------------------------------------------ TLC

def tlc(module, cfg_text=None, cfg=None, env=None, workers=None, heap="6g", deadlock=False, timeout=850, extra=(), cont=False):
    """run TLC in the spec directory; returns dict(out, rc, generated, distinct)"""
    spec = os.path.join(ROOT, "spec")
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    if cfg is None:
        cfg = os.path.join(meta, "m.cfg")
        open(cfg, "w").write(cfg_text)
    e = dict(os.environ)
    e.setdefault("FFT_COS", os.path.join(spec, "cos.json"))
    e.update(env or {})
    cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + spec,
           "-cp", JAR + ":" + os.environ.get("VF_CP", _classpath()), "tlc2.TLC",
           "-workers", str(workers or CORES), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra)
    cmd.append(os.path.join(spec, module + ".tla"))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    out = p.stdout.decode(errors="replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    shutil.rmtree(meta, ignore_errors=True)
    return dict(out=out, rc=p.returncode, generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0)


def _classpath():
    d = os.path.dirname(JAR)
    return ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != os.path.basename(JAR))


LINE = re.compile(r'<<\s*"(ACCEPT|REJECT)",\s*"([^"]*)",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def _ask(traces, heap, timeout):
    path = os.path.join(scratch(), "tr%d.json" % (len(os.listdir(scratch()))))
    with open(path, "w") as f:
        json.dump(traces, f)
    r = tlc("FftTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"FFT_TRACES": path}, heap=heap, timeout=timeout)
    os.unlink(path)
    r["ok"] = "Error:" not in r["out"] and "Model checking completed. No error" in r["out"]
    return r


def judge(traces, heap="8g", timeout=850):
    """TLC's verdict on recorded runs: id -> (accepted, event, [reasons]); plus counts.
    A recording of which TLC cannot even evaluate the specification (a value where none can be, say) is not
    explained by it: such recordings are found by halving and count as rejected."""
    v, tot, todo = {}, dict(generated=0, distinct=0), [traces]
    while todo:
        part = todo.pop()
        r = _ask(part, heap, timeout)
        tot["generated"] += r["generated"]
        tot["distinct"] += r["distinct"]
        if not r["ok"]:
            log = os.path.join(ROOT, ".work", "tlc_error.log")
            open(log, "w").write(r["out"])
            m = re.search(r"Error: (.*)", r["out"], re.S)
            if not m or re.search(r"OutOfMemory|StackOverflow|Could not|parse|Parsing|no space", m.group(1)[:2000]):
                raise Broken("TLC failed on recorded runs:\n" + r["out"][-3000:])
            if len(part) == 1:
                v[part[0]["id"]] = (False, part[0]["full"] or 1, ["what was recorded is outside the specification: " + clean(m.group(1))])
                if sum(1 for x in v.values() if x[2] and x[2][0].startswith("what was recorded is outside")) >= 3:
                    for p in todo:          # enough: the rest is only told apart when it can be judged as it stands
                        for t in p:
                            v.setdefault(t["id"], (True, t["full"], []))
                    break
            else:
                h = len(part) // 2
                todo += [part[h:], part[:h]]
            continue
        for tag, i, l, why in LINE.findall(r["out"]):
            v[i] = (tag == "ACCEPT", int(l), sorted(re.findall(r'"([^"]*)"', why)))
        miss = [t["id"] for t in part if t["id"] not in v]
        if miss:
            raise Broken("TLC gave no verdict on %d runs, e.g. %s" % (len(miss), miss[0]))
    return v, tot
