"""check.py --property C01 [--tier quick|thorough] [--seed N]

Builds the library from the current sources, drives it through scenarios of the property's families
under the simulated MPI, and lets TLC decide whether the specification explains every recorded run.
exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed."""
import argparse, copy, json, os, random, sys, time, traceback
import run, gen, genspec, commspec, design
from run import Broken

ROOT = run.ROOT
CF = ["kd", "ks", "wd", "ws"]

# property -> (families with the number of scenarios of the quick tier, extra decision procedures)
PLAN = {
    "C01": dict(design=[design.pipeline], fam=[("session", 80), ("forward", 700), ("large", 60), ("empties", 80), ("backward", 60), ("optpair", 60), ("huge", 24)], small=("f", 240)),
    "C02": dict(design=[design.pipeline], fam=[("session", 80), ("backward", 760), ("large", 30), ("memory", 120), ("history", 60), ("marathon", 80), ("huge", 12)]),
    "C03": dict(fam=[("session", 80), ("optsweep", 90), ("optpair", 440), ("large", 30), ("huge", 16)], small=("f", 120)),
    "C04": dict(fam=[("session", 80), ("remaps", 1700), ("large", 40), ("partial", 80), ("marathon", 60), ("huge", 32)], small=("r", 360)),
    "C05": dict(design=[design.pipeline], fam=[("session", 120), ("schedules", 520), ("subcomms", 60), ("tuning", 60), ("huge", 12)], pre=[commspec.deadlock]),
    "C06": dict(fam=[("session", 120), ("memory", 620), ("large", 30), ("remaps", 400), ("partial", 160), ("huge", 16)]),
    "C07": dict(design=[design.tuning], fam=[("tuning", 560)]),
    "C08": dict(fam=[("misuse", 1500)], spec=dict(pools=16, per=10, misuse=True)),
    "C09": dict(fam=[("leaks", 520), ("session", 120)]),
    "C10": dict(fam=[("languages", 220), ("foreign", 220), ("misuse", 240)]),
    "C11": dict(design=[design.pipeline], fam=[("session", 100), ("partial", 860), ("marathon", 60), ("large", 20)]),
    "C12": dict(design=[design.meaning], fam=[("history", 300), ("session", 240), ("leaks", 60), ("backward", 60), ("marathon", 120)], spec=dict(pools=24, per=12, misuse=False)),
    "C13": dict(fam=[("session", 60), ("empties", 840), ("large", 20)], small=("f", 120)),
    "C14": dict(fam=[("session", 80), ("stats", 760), ("tuning", 100)]),
    "C15": dict(design=[design.meaning], fam=[("subcomms", 480), ("groups", 260)]),
}
THOROUGH_S = 640


def make(fam, seed, i, big):
    rng = random.Random("%s/%s/%d" % (fam, seed, i))
    return getattr(gen, fam)(rng, "%s-%s-%d" % (fam, seed, i), big=big)


_small = {}


def jobs_of(plan, seed, rnd, frac=1.0, big=1, tier="quick", tally=None):
    out = []
    sp = plan.get("spec")
    if sp:                          # histories TLC produced from the specification
        ss, n = genspec.histories("%d" % (int(seed) * 1000 + rnd), sp["pools"], sp["per"], 34 if big < 2 else 60, sp["misuse"])
        out += [(CF[i % 4], s) for i, s in enumerate(ss)]
        tally.extra["histories_from_specification"] = tally.extra.get("histories_from_specification", 0) + len(ss)
        tally.extra["states_visited_generating"] = tally.extra.get("states_visited_generating", 0) + n
    if plan.get("small"):           # every tiling of small grids, enumerated by TLC
        kind, n = plan["small"]
        if kind not in _small:
            _small[kind] = genspec.Small(tier, seed)
        sm = _small[kind]
        ss = sm.scenarios(n, kind, "%s-%d" % (seed, rnd))
        out += [(CF[(i + rnd) % 4], s) for i, s in enumerate(ss)]
        tally.extra["enumerated_tilings_covered"] = "%d of %d" % (sm.done, sm.total)
    for fam, n in plan["fam"]:
        n = max(4, int(n * frac))
        for k in range(n):
            i = rnd * 1000000 + k
            s = make(fam, seed, i, big)
            out.append((CF[(i + k // 4) % 4], s))
    return out


# ------------------------------------------------------------------ the checker is bound to the code

def corruptions(traces, each=3):
    """damaged copies of recorded runs, by kind of damage: the specification has to reject damage of every kind"""
    out = []
    for name, f in DAMAGE:
        n = 0
        for t in traces:
            c = copy.deepcopy(t)
            if f(c):
                c["id"] = "corrupt/%s/%s" % (name, t["id"])
                out.append(c)
                n += 1
                if n == each:
                    break
    return out


def _dmg_read(t):
    for e in reversed(t["ev"][:t["full"]]):
        if e["op"] == "read":
            for r in e["res"]:
                if r.get("v"):
                    r["v"][len(r["v"]) // 2] += 2000000
                    return True
    return False


def _dmg_guard(t):
    for e in t["ev"][:t["full"]]:
        if e["op"] in ("compute", "remap", "onlyremaps"):
            e["res"][0]["g"] = 3
            return True
    return False


def _dmg_end(t):
    if t["full"] == len(t["ev"]) and t["end"]["verdict"] == "end":
        t["end"]["orphans"] = 1
        return True
    return False


def _dmg_err(t):
    if t["full"] < len(t["ev"]):
        for r in t["end"]["ranks"]:
            if r["st"] == "exit":
                r["code"] = 0
                return True
    return False


def _dmg_mark(t):
    for e in t["ev"][:t["full"]]:
        if e["op"] == "mark" and e["same"]:
            e["res"][0]["heap"] += 1
            return True
    return False


def _dmg_tune(t):
    for e in t["ev"][:t["full"]]:
        if e["op"] == "tune":
            for r in e["res"]:
                if "best" in r:
                    r["best"] = [3, 3, 3]
                    return True
    return False


def _dmg_get(t):
    for e in t["ev"][:t["full"]]:
        if e["op"] == "get" and "npfast2" in e["keys"]:
            for r in e["res"]:
                if "v" in r:
                    r["v"][e["keys"].index("npfast2")] += 7
                    return True
    return False


DAMAGE = [("read", _dmg_read), ("guard", _dmg_guard), ("end", _dmg_end), ("error", _dmg_err), ("mark", _dmg_mark), ("tune", _dmg_tune), ("get", _dmg_get)]


# ------------------------------------------------------------------ running

class Tally:
    def __init__(self):
        self.states = self.gen = self.runs = self.events = 0
        self.ops, self.cfg, self.ranks, self.fam = {}, {}, {}, {}
        self.errors = self.schedules = 0
        self.samples = []
        self.extra = {}

    def add(self, jobs, traces, r):
        self.states += r["distinct"]
        self.gen += r["generated"]
        for (c, s), t in zip(jobs, traces):
            self.runs += 1
            self.cfg[c] = self.cfg.get(c, 0) + 1
            self.ranks[str(s.P)] = self.ranks.get(str(s.P), 0) + 1
            f = s.id.split("-")[0]
            self.fam[f] = self.fam.get(f, 0) + 1
            for e in t["ev"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
                self.events += 1
            if t["full"] < len(t["ev"]):
                self.errors += 1
            if len(self.samples) < 4:
                self.samples.append(t["id"])


def once(jobs, bins, tally, bind):
    raw = run.execute(jobs, bins)
    pairs = run.traces_of(jobs, raw)
    traces = [t for _, t in pairs]
    bad = corruptions(traces) if bind else []
    v, r = run.judge(traces + bad)
    tally.add([j for j, _ in pairs], traces, r)
    n = sum(x.get("explored", 0) for x in raw.values() if not x.get("variant"))
    if n:
        tally.extra["schedules_enumerated"] = tally.extra.get("schedules_enumerated", 0) + n
    if bind:
        tally.extra["damaged_runs_rejected"] = tally.extra.get("damaged_runs_rejected", 0) + sum(1 for c in bad if not v[c["id"]][0])
    out, odd = [], []
    for (c, s), t in pairs:
        ok, ev, why = v[t["id"]]
        if ok or any(x[1] is s for x in out):
            continue
        if any(w.startswith("GENERATOR") for w in why):
            odd.append("scenario %s/%s is not meaningful at call %d: %s" % (c, s.id, ev, why))
            continue
        out.append((c, s, ev, why))
    if odd and not out:
        raise Broken(odd[0])
    if not out:
        for name in {c["id"].split("/")[1] for c in bad}:
            mine = [c["id"] for c in bad if c["id"].split("/")[1] == name]
            if all(v[i][0] for i in mine):
                raise Broken("the specification accepts damaged runs: " + ", ".join(mine))
    return out


def confirm(rejected, bins):
    """run the rejected scenarios again; keep those rejected again"""
    kept = []
    for n in range(2):
        todo = [(c, s) for c, s, ev, why in rejected[:12] if not any(k[1] is s for k in kept)]
        if not todo:
            break
        raw = run.execute(todo, bins)
        pairs = run.traces_of(todo, raw)
        v, _ = run.judge([t for _, t in pairs])
        for (c, s), t in pairs:
            ok, ev, why = v[t["id"]]
            if not ok and not any(k[1] is s for k in kept) and not any(w.startswith("GENERATOR") for w in why):
                kept.append((c, s, ev, why, t))
    return kept


def replay_file(prop, c, s, ev, why, t):
    d = os.path.join(ROOT, ".work", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, c, s.id))
    with open(p, "w") as f:
        json.dump(dict(property=prop, cfg=c, scenario=s.text(), call=ev, event=s.events[ev - 1] if ev <= len(s.events) else "end", reasons=why, trace=t), f, indent=1)
    return p


def known():
    """lines 'known: property=<id> scenario-independent description | substring of the reason'; none are listed at present"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known: property="):
            out.append(line[len("known: property="):].split(" ", 1))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    plan = PLAN[prop]
    t0 = time.time()
    tally = Tally()
    bins = run.build(CF)
    t1 = time.time()
    viol = []
    for f in plan.get("design", ()) if tier == "thorough" else ():
        f(a.seed, tally)
    for f in plan.get("pre", ()):
        viol += f(prop, tier, a.seed, bins, tally) or []
    if not viol:
        if tier == "quick":
            rounds = [(0, 1.0, 1)]
        else:
            rounds = [(0, 1.0, 1)] + [(k, 1.0, 1 if k % 3 else 2) for k in range(1, 1000)]
        for rnd, frac, big in rounds:
            if tier != "quick" and rnd and time.time() - t0 > THOROUGH_S:
                break
            rejected = once(jobs_of(plan, a.seed, rnd, frac, big, tier, tally), bins, tally, rnd == 0)
            kept = confirm(rejected, bins) if rejected else []
            for c, s, ev, why in rejected:
                if not any(k[1] is s for k in kept[:12]):
                    tally.extra.setdefault("not_repeated", []).append("%s/%s: %s" % (c, s.id, "; ".join(why)[:200]))
            if kept:
                for c, s, ev, why, t in kept[:5]:
                    p = replay_file(prop, c, s, ev, why, t)
                    viol.append((p, "%s/%s call %d: %s" % (c, s.id, ev, "; ".join(why)[:300])))
                break
    ev = dict(property=prop, tier=tier, seed=int(a.seed), level="model_checking", wall_s=round(time.time() - t0, 1), build_s=round(t1 - t0, 1),
              violations=len(viol),
              coverage=dict(states=tally.states, transitions=tally.gen, traces_validated_against_impl=tally.runs, samples=tally.samples,
                            events=tally.events, calls=tally.ops, scenarios_by_family=tally.fam, configurations=tally.cfg, world_sizes=tally.ranks,
                            runs_ending_in_required_error=tally.errors, **tally.extra))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        for p, text in viol:
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  " + text)
        sys.exit(1)
    print("%s held: %d runs, %d calls, %d states, %.1f s" % (prop, tally.runs, tally.events, tally.states, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
