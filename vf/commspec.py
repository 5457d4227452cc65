"""Recorded MPI programs, explored by TLC under every timing (CommProg)."""
import json, os, random, re
import run, gen
from run import Broken


def program(c, s, raw):
    """what CommProg needs of one recorded run, or the reason it cannot be expressed"""
    if raw["verdict"] != "end":
        return None, "run did not end"
    req, wait = [], []
    for r in raw["ranks"]:
        q, w, pos, op, pend, last = [], [], {}, -1, [], None
        log = r["comm"]
        for k, e in enumerate(log):
            t = e[0]
            if t == "O":
                op = e[1]
            elif t in "SR":
                if e[4] < 0 or e[5] < 0:
                    return None, "wildcard"
                q.append(dict(k=t, id=e[1], c=e[2], me=e[3], peer=e[4], tag=e[5], mode=e[6] if t == "S" else 0, len=e[-1], call=op, blk=len(w) + 1, n=0, seq=0))
                pos[e[1]] = len(q)
                pend.append(e)
            elif t == "C":
                q.append(dict(k="C", id=e[1], c=e[2], me=e[3], peer=-1, tag=-1, mode=0, len=0, call=op, blk=len(w) + 1, n=e[5], seq=e[4]))
                pos[e[1]] = len(q)
                pend.append(e)
            elif t == "W":
                ids = e[2]
                if any(i not in pos for i in ids):
                    return None, "request of unknown kind"
                done = log[k + 1][1] if k + 1 < len(log) and log[k + 1][0] == "D" else None
                if e[1] not in (0, 1, 2) or done is None:
                    return None, "polling"
                if not ids:
                    continue
                mode = ["all", "any", "some"][e[1]]
                x = dict(mode=mode, ids=[pos[i] for i in ids], last=1)
                if mode == "some" and len(done) != len(ids):
                    return None, "wait for some in parts"
                if mode == "any":
                    if last and not pend and set(last[1]) == set(ids):     # goes on with the rest of the same set
                        w[-1]["last"] = 0
                        x["ids"] = w[-1]["ids"]
                    elif last and last[1]:
                        return None, "wait for any left off"
                    last = (x, [i for i in ids if i not in done])
                elif last and last[1]:
                    return None, "wait for any left off"
                if mode != "any":
                    last = None
                w.append(x)
                pend = []
            elif t == "P":
                return None, "probe"
        if last and last[1]:
            return None, "wait for any left off"
        req.append(q)
        wait.append(w)
    return dict(id="%s/%s" % (c, s.id), P=len(req), req=req, wait=wait), None


def cost(p):
    """rough size of the state space: ranks drift apart between collectives over all ranks"""
    n = 1
    for r in range(p["P"]):
        best = cur = 0
        for b, w in enumerate(p["wait"][r]):
            full = any(p["req"][r][i - 1]["k"] == "C" and p["req"][r][i - 1]["n"] == p["P"] for i in w["ids"])
            cur = 0 if full else cur + (2 if w["mode"] == "any" else 1)
            best = max(best, cur)
        n *= best + 1
    return n


def explore(progs, timeout=600):
    path = os.path.join(run.scratch(), "progs%d.json" % random.randrange(1 << 30))
    json.dump(progs, open(path, "w"))
    r = run.tlc("CommProg", "SPECIFICATION Spec\nINVARIANTS Static NoDeadlock\nCHECK_DEADLOCK FALSE\n", env={"FFT_PROGS": path}, heap="8g", timeout=timeout)
    os.unlink(path)
    m = re.search(r"Invariant (\w+) is violated", r["out"])
    if not m and "Model checking completed. No error" not in r["out"]:
        raise Broken("TLC failed on recorded programs:\n" + r["out"][-3000:])
    bad = None
    if m:
        i = [int(x) for x in re.findall(r"sid = (\d+)", r["out"])][-1]
        bad = (progs[i - 1], m.group(1), r["out"][r["out"].index("Error:"):][:6000])
    return bad, r


def damaged(progs):
    """programs that CommProg has to object to: (invariant, program)"""
    out = []
    for p in progs:                 # a recorded program in which one receive waits for a message nobody sends
        c = json.loads(json.dumps(p))
        for q in c["req"]:
            k = next((i for i, x in enumerate(q) if x["k"] == "R"), None)
            if k is not None:
                q[k]["tag"] += 1000003
                out.append(("Static", c))
                break
        if out:
            break

    def req(k, i, peer, blk):
        return dict(k=k, id=i, c=1, me=1 - peer, peer=peer, tag=0, mode=0, len=8, call=1, blk=blk, n=0, seq=0)
    one = lambda i: dict(mode="all", ids=[i], last=1)
    # two ranks that send to each other before they receive: stuck unless messages are buffered
    out.append(("NoDeadlock", dict(id="head-to-head", P=2, req=[[req("S", 1, 1 - r, 1), req("R", 2, 1 - r, 2)] for r in (0, 1)],
                                   wait=[[one(1), one(2)] for r in (0, 1)])))
    return out


FINE = dict(id="in-turn", P=2, wait=[[dict(mode="all", ids=[1], last=1), dict(mode="all", ids=[2], last=1)] for r in (0, 1)],
            req=[[dict(k=k, id=i + 1, c=1, me=r, peer=1 - r, tag=0, mode=0, len=8, call=1, blk=i + 1, n=0, seq=0) for i, k in enumerate(["SR", "RS"][r])]
                 for r in (0, 1)])


def record(prop, tier, seed, bins, tally, rnd=0):
    big = tier != "quick"
    n, lim = (160, 100000) if not big else (260, 1000000)
    jobs = []
    for i in range(n):
        rng = random.Random("comm/%s/%d/%d" % (seed, rnd, i))
        fam = rng.choice(["schedules"] * 5 + ["subcomms"] * 2)
        s = getattr(gen, fam)(rng, "comm-%s-%d-%d" % (seed, rnd, i), P=rng.choice([2, 3, 3, 4] + ([5] if big else [])))
        s.kv.pop("explore", 0)
        s.kv["comm"], s.kv["sched"] = 1, 0
        jobs.append((["kd", "ks", "wd", "ws"][i % 4], s))
    raw = run.execute(jobs, bins)
    progs, skip = [], {}
    for c, s in jobs:
        p, why = program(c, s, raw[s.id])
        if p and cost(p) > lim:
            p, why = None, "too large"
        if p:
            progs.append(p)
        else:
            skip[why] = skip.get(why, 0) + 1
    return {"%s/%s" % (c, s.id): s for c, s in jobs}, progs, skip


def deadlock(prop, tier, seed, bins, tally, t0=0):
    """pre-pass of the checks: recorded programs under every timing"""
    out = []
    rounds = 1 if tier == "quick" else 2
    for rnd in range(rounds):
        scns, progs, skip = record(prop, tier, seed, bins, tally, rnd)
        if not progs:
            tally.extra["programs_not_expressible"] = skip
            break
        if rnd == 0:
            if explore([FINE])[0]:
                raise Broken("CommProg objects to a correct program")
            for inv, c in damaged(progs):
                b, _ = explore([c])
                if not b or b[1] != inv:
                    raise Broken("CommProg accepts a damaged program (%s expected)" % inv)
                tally.extra["damaged_programs_rejected"] = tally.extra.get("damaged_programs_rejected", 0) + 1
        bad, r = explore(progs)
        tally.states += r["distinct"]
        tally.gen += r["generated"]
        tally.extra["programs_explored"] = tally.extra.get("programs_explored", 0) + len(progs)
        tally.extra["program_states"] = tally.extra.get("program_states", 0) + r["distinct"]
        for k, v in skip.items():
            d = tally.extra.setdefault("programs_not_explored", {})
            d[k] = d.get(k, 0) + v
        if bad:
            p, inv, text = bad
            d = os.path.join(run.ROOT, ".work", "replay")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-comm-%s.json" % (prop, p["id"].replace("/", "-")))
            json.dump(dict(property=prop, invariant=inv, scenario=scns[p["id"]].text(), program=p, counterexample=text), open(f, "w"), indent=1)
            return [(f, "%s: recorded communication violates %s under some timing" % (p["id"], inv))]
    return out
