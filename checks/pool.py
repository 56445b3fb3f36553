"""T01: the thread pool under controlled schedules."""
import hashlib
from kvlib import *

TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"


def execute(chk, exe, eps, name, free=False):
    """Run episodes (each one script line), return the trace file and its number of events."""
    rc, err, tp, n = chk.drive(exe, eps, name, timeout=600, args=["free"] if free else [])
    if rc != 0:
        raise CheckError("the driver failed: %s %s" % (rc, err))
    return tp, n


def schedules(chk, exe, eps, what, free=False, chunk=150, max_viol=3, module="PoolTrace"):
    chunks = [eps[i:i + chunk] for i in range(0, len(eps), chunk)]

    def one(ic):
        i, es = ic
        bad = []
        while es and len(bad) < 3:
            tp, n = execute(chk, exe, es, "%s%d" % (what.replace(" ", "_"), i), free)
            ok, k, _ = chk.trace(module, TCFG, tp, n, what, timeout=600)
            if ok:
                break
            lines = open(tp).read().splitlines()
            at = [j for j, l in enumerate(lines) if '"op":"new"' in l]
            e = max(x for x in range(len(at)) if at[x] < k)
            end = at[e + 1] if e + 1 < len(at) else len(lines)
            bad.append((es[e], lines[at[e]:end], k - at[e]))
            es = es[e + 1:]
        return bad, len(ic[1])

    allbad = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for bad, n in ex.map(one, enumerate(chunks)):
            allbad += bad
            chk.traces += n
    for e, lines, k in allbad:
        if len(chk.violations) >= max_viol:
            return
        if not free:
            # the same seed gives the same schedule: confirm
            again = 0
            for r in range(2):
                tp, n = execute(chk, exe, [e], "confirm", free)
                again += not chk.trace(module, TCFG, tp, n, "confirm")[0]
            if again < 2:
                chk.extra["unreproduced_rejections"] = chk.extra.get("unreproduced_rejections", 0) + 1
                continue
        sp, tp = os.path.join(chk.work, "episode.script"), os.path.join(chk.work, "episode.ndjson")
        open(sp, "w").write(e + "\n")
        open(tp, "w").write("\n".join(lines) + "\n")
        chk.violation("[%s] %s: event %d is not allowed by the specification: %s\n%s" % (what, e, k, lines[min(k, len(lines)) - 1], "\n".join(lines[:k])), [sp, tp])


def t01(chk):
    exe = driver("pool")
    chk.model("PoolMC", "SPECIFICATION Spec\nCONSTANTS Clients={1,2} Workers={3} MaxTasks=%d MaxCalls=2 GEN=FALSE\n"
              "INVARIANTS ExactlyOnce GoneMeansDone OneEach\nPROPERTIES JoinMeansDone\n" % chk.n(2, 3), "every history of two clients", 100, 900)
    icfg = ("SPECIFICATION Spec\nCONSTANTS Clients={1,2} Workers={%s} NotifyAll=%s\nCONSTANT Prog <- P0\n"
            "INVARIANTS CountRight AllDone\nPROPERTIES AbsStep Ends\n")
    progs = [[["S", "J"], ["P"]], [["P", "J", "P"], ["J"]]]
    if chk.thorough:
        progs += [[["S", "P", "J", "P"], ["P", "J"]], [["P", "P", "J"], ["S", "J"]], [["S", "S"], ["J", "P"]]]
    for p in progs:
        f = os.path.join(chk.work, "progs.json")
        json.dump(p, open(f, "w"))
        chk.model("PoolImplMC", icfg % ("3,4", "TRUE"), "mutex and condition variable algorithm refines the pool, ends: %s" % p, 100, 1500,
                  env={"PROGS": f}, deadlock=True)
    # the model is not blind: with a single wake-up at the end a waiter is lost
    r = tlc("PoolImplMC", icfg % ("3,4", "FALSE"), env={"PROGS": f}, deadlock=True)
    if r.ok:
        raise CheckError("PoolImpl with single notification should get stuck")

    rng = chk.rng
    progs = []
    for b in chk.behaviours("PoolMC", "SPECIFICATION Spec\nCONSTANTS Clients={1,2} Workers={3,4} MaxTasks=5 MaxCalls=5 GEN=TRUE\nINVARIANT Emit\n",
                            simulate="num=%d" % chk.n(300, 3000), args=["-depth", "60", "-seed", str(SEED)]):
        progs.append([",".join(rng.choice(["P", "P", "S"]) if o == "P" else o for o in h) for h in b])
    progs = [p for p in progs if p[0] or p[1]]
    eps = []
    for i in range(chk.n(2400, 60000)):
        p = rng.choice(progs)
        if rng.random() < .3:
            p = [",".join(rng.choice("PPSJY") for _ in range(rng.choice([1, 3, 6]))) for _ in range(rng.choice([1, 2]))]
        p = [x or "Y" for x in p]
        eps.append("new %d %d %d %s" % (rng.choice([1, 1, 2, 2, 3, 4]), rng.randrange(1, 10 ** 9), i % 12 == 0, " ".join(p)))
    chk.samples += eps[:3]
    chk.assumptions += ["under the controlled scheduler memory is sequentially consistent; ordering of effects is checked by happens-before",
                        "tasks do not throw and do not wait for the pool themselves"]
    schedules(chk, exe, eps, "controlled schedules")
    schedules(chk, exe, [e.replace(" 1 ", " 0 ", 0) for e in eps[:chk.n(150, 3000)]], "free running", free=True)
