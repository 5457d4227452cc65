"""The specification's own models (Pipeline, Tune), checked by TLC in the thorough tier.
They say why what FftSys promises is what the way the library works yields; the code is not involved,
so that a failure is one of the specification (Broken), never of the library."""
import run
from run import Broken

PIPE = "CONSTANTS G1 = %d\nG2 = %d\nG3 = %d\nP = %d\nCount = %d\nStrict = %s\nBricks = %s\nSPECIFICATION Spec\n" \
       "INVARIANTS Correct NothingLeft NoDeadlock Bounded\nCHECK_DEADLOCK FALSE\n"
TUNE = "CONSTANTS Ranks = {%s}\nTimes = {%s}\nLimits = {0, 1, 2, 3, 5, 8, 12, 20, 35, 61, 200}\nIters = {%s}\nShare = %s\nSPECIFICATION Spec\n" \
       "INVARIANTS NoDeadlock Agreement Explained Within MoreTrials Unlimited\nCHECK_DEADLOCK FALSE\n"


def _run(module, cfg, holds, tally, seed="1"):
    r = run.tlc(module, cfg, timeout=300, extra=["-seed", str(seed)])
    ok = "Model checking completed. No error" in r["out"]
    bad = "is violated" in r["out"]
    if ok != holds or bad == holds:
        raise Broken("model %s: expected to %s\n%s\n%s" % (module, "hold" if holds else "fail", cfg, r["out"][-2000:]))
    tally.states += r["distinct"]
    tally.gen += r["generated"]
    tally.extra["design_models_checked"] = tally.extra.get("design_models_checked", 0) + 1
    tally.extra["design_model_states"] = tally.extra.get("design_model_states", 0) + r["distinct"]


def pipeline(seed, tally):
    for g, P, n, bricks in [((2, 2, 2), 2, 400, False), ((2, 2, 2), 2, 200, True), ((3, 2, 1), 3, 60, False), ((4, 3, 1), 2, 80, True),
                            ((2, 3, 2), 2, 60, False), ((2, 2, 2), 3, 15, False)]:
        _run("Pipeline", PIPE % (*g, P, n, "TRUE", str(bricks).upper()), True, tally, seed)
    _run("Pipeline", PIPE % (2, 2, 2, 2, 100, "FALSE", "FALSE"), False, tally, seed)


def tuning(seed, tally):
    _run("Tune", TUNE % ("1, 2", "1, 2", "1, 2, 3", "TRUE"), True, tally, seed)
    _run("Tune", TUNE % ("1, 2, 3", "1, 2", "1", "TRUE"), True, tally, seed)
    _run("Tune", TUNE % ("1, 2", "1, 2", "1, 2", "FALSE"), False, tally, seed)


MEANING = "CONSTANTS G1 = %d\nG2 = %d\nG3 = %d\nP = %d\nCount = %d\nPows = %d\n%sSPECIFICATION Spec\nINVARIANT Means\nPROPERTY OneTarget\n" \
          "CONSTRAINT Small\nCHECK_DEADLOCK FALSE\n"


def meaning(seed, tally):
    for x in [(2, 2, 1, 2, 2, 0), (3, 2, 1, 2, 1, 0), (2, 2, 1, 3, 1, 0)]:
        _run("Meaning", MEANING % (*x, ""), True, tally, seed)
    for wrong in ["Transformed <- NoReflection", "SameLay <- AnyOrder"]:
        _run("Meaning", MEANING % (3, 2, 1, 2, 8, 0, wrong + "\n"), False, tally, seed)
