"""E01: the life of a backend."""
from kvlib import *

FORMS = {(False, False): ["plain", "twonone"], (True, False): ["pred", "twopre"], (False, True): ["twopost"], (True, True): ["two"]}
TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"


def head(rng):
    return "new %s %s %d" % (rng.choice(["null", "null", "st", "mt", "rst", "rmt"]), ",".join(["d1", "d2", "d3"][:rng.choice([0, 1, 2, 3, 3])]) or "-", rng.randrange(1, 10 ** 9))


def script(b, rng):
    """A behaviour of BackendMC as a script; every run carries its decisions."""
    r, run = ["new %s d1,d2,d3 %d" % (rng.choice(["null", "st", "mt"]), rng.randrange(1, 10 ** 9))], None
    for x in b:
        if x[0] == "start":
            run = {"f": rng.choice(FORMS[x[1], x[2]]), "init": [], "pre": [], "step": [], "post": []}
            r.append(run)
        elif x[0] in ("init", "step"): run[x[0]].append("xstop" if x[1] == "stop" and rng.random() < .3 else x[1])
        elif x[0] in ("pre", "post"): run[x[0]].append(("+" if x[2] else "-") + x[1])
        elif x[0] == "finish": pass
        elif x[0] == "select": r.append("select " + (",".join(x[1]) or "-"))
        elif x[0] == "select1": r.append("select1 " + x[1])
        else: r.append(x[0])
    return [l if isinstance(l, str) else "start %s %s" % (l["f"], " ".join("%s=%s" % (k, ",".join(v)) for k, v in l.items() if k != "f" and v)) for l in r]


def rand_episode(rng, nops):
    r = [head(rng)]
    bad = lambda p: rng.choices(["ok", "stop", "xstop", "uninit", "throw"], [1 - p, p / 4, p / 4, p / 4, p / 4])[0]
    while len(r) < nops:
        op = rng.choices(["start", "stop", "uninit", "rawstep", "select", "select1", "devs", "selectlisted"], [12, 1, 2, 1, 3, 1, 1, 1 if r[0].split()[2] != "-" or r[0].split()[1][0] == "r" else 0])[0]
        if op == "start":
            k, p = rng.choice([1, 2, 5, 12]), rng.choice([0, .1, .3])
            cond = lambda: ("+" if rng.random() < .92 else "-") + bad(p)
            r.append("start %s init=%s pre=%s step=%s post=%s" % (
                rng.choice(["plain", "pred", "two", "twopre", "twopost", "twonone"]), rng.choice(["ok", "ok", "ok", "throw"]),
                ",".join(cond() for _ in range(k)), ",".join(bad(p) for _ in range(k)), ",".join(cond() for _ in range(k))))
        elif op == "select":
            r.append("select " + (",".join(sorted(set(rng.choice(["d1", "d2", "d3", "d3", "d4"]) for _ in range(rng.choice([0, 1, 2, 3]))))) or "-"))
        elif op == "select1": r.append("select1 " + rng.choice(["d1", "d3"]))
        elif op == "selectlisted": r.append("selectlisted %d" % rng.randrange(3))
        else: r.append(op)
    return r


def e01(chk):
    exe = driver("backend")
    chk.model("BackendMC", "SPECIFICATION Spec\nCONSTANTS MaxSteps=%d MaxOps=%d GEN=FALSE\n"
              "INVARIANTS IdleNotRunning InitOnce Counted RunningInited\nPROPERTIES NoStepAfterEnd StepsInitialised KeepsCounting EndsWhenAsked\n"
              % (chk.n(3, 5), chk.n(2, 3)), "every history", 100, 900)
    eps = [script(b, chk.rng) for b in chk.behaviours("BackendMC", "SPECIFICATION Spec\nCONSTANTS MaxSteps=25 MaxOps=20 GEN=TRUE\nINVARIANT Emit\n",
                                                   simulate="num=%d" % chk.n(500, 10000), args=["-depth", "45", "-seed", str(SEED)])]
    eps += [rand_episode(chk.rng, chk.rng.choice([4, 10, 25])) for _ in range(chk.n(1500, 20000))]
    chk.samples += [eps[0], eps[-1]]
    chk.assumptions += ["callbacks do not start a nested run"]
    conform(chk, exe, "BackendTrace", TCFG, eps, "run histories", chunk=300, parallel=8)
