"""X03: message handlers.  X04: data converters."""
from kvlib import *

ICFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\n"


def csv(xs, none="-"):
    return ",".join(map(str, xs)) or none


def message(rng, size, dup, far=False):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    r = [rng.randrange(size) for _ in range(n)]
    if not dup:
        r = list(dict.fromkeys(r))
    if far and r and rng.random() < .3:
        r[rng.randrange(len(r))] = rng.choice([2147483648, 4294967295, 65536, 256])
    return csv(r, ".")


def x03(chk):
    cfg = "SPECIFICATION Spec\nCONSTANTS IDX={0,1,2,3} MAXLEN=%d MAXK=%d GEN=%s\n"
    chk.model("HandlersMC", cfg % (chk.n(3, 5), 4, "FALSE") + "INVARIANTS Promise NothingInvented OnlyCandidates\n", "every small message, every draw", 1000, 1800)
    exe = driver("io")
    beh = chk.behaviours("HandlersMC", cfg % (3, 3, "TRUE") + "INVARIANT Emit\n")
    eps, cur = [], None
    chk.rng.shuffle(beh)
    beh = beh[:chk.n(2500, 20000)]
    for i, (kind, k, b, m) in enumerate(beh):
        if i % 25 == 0:
            cur = ["new"]
            eps.append(cur)
        cur += ["handler %s %d %s %d" % (kind, k, csv(b), chk.rng.randrange(10 ** 6)), "call " + csv(m, "."), "many 250 " + csv(m, ".")]
    conform(chk, exe, "IoTrace", ICFG, eps, "every small message", chunk=20, parallel=8)
    eps = []
    for _ in range(chk.n(300, 6000)):
        rng, e = chk.rng, ["new"]
        for _ in range(rng.choice([1, 2, 3])):
            size = rng.choice([3, 6, 20, 100])
            b = [rng.randrange(size + 2) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if rng.random() < .6: b.sort()
            if rng.random() < .8: b = list(dict.fromkeys(b))
            e.append("handler %s %d %s %d" % (rng.choice(["kwta", "group", "group", "pergroup", "pergroup", "union"]), rng.choice([0, 1, 1, 2, 3, 5, 20]),
                                              csv(b), rng.randrange(-10 ** 6, 10 ** 6)))
            dup = rng.random() < .3
            for _ in range(rng.choice([3, 10])):
                e.append("call " + ("|".join(message(rng, size, dup) for _ in range(rng.choice([1, 1, 1, 2, 3]))) if rng.random() > .05 else "-"))
            if rng.random() < .5:
                e.append("many 400 " + csv(rng.sample(range(size), min(size, rng.choice([2, 3, 5]))), "."))
        eps.append(e)
    chk.samples += eps[:2]
    conform(chk, exe, "IoTrace", ICFG, eps, "random messages", chunk=40, parallel=8)


def x04(chk):
    cfg = "SPECIFICATION Spec\nCONSTANTS MAXLEN=%d MAXN=%d MAXSTEPS=%d GEN=%s\n"
    chk.model("ConvertMC", cfg % (chk.n(3, 4), 3, 3, "FALSE") + "INVARIANT Whole\n", "every small stream", 1000, 1800)
    exe = driver("io")
    eps = []
    beh = chk.behaviours("ConvertMC", cfg % (4, 3, 4, "TRUE") + "INVARIANT Emit\n", simulate="num=%d" % chk.n(400, 4000), args=["-depth", "9", "-seed", str(SEED)])
    for kind, c, *steps in beh:
        if kind == "seq":
            e = ["new", "seq %s %s %d %s" % (chk.rng.choice(["int", "float"]), "bool" if c["bool"] else c["thr"] // 4, steps[0],
                                             ";".join(str(x // 4) for x in c["data"]) or "-")]
            n = steps[0]
            for s in steps:
                if s != n: e.append("size %d" % s)
                n = s
                e.append("next")
        else:
            e = ["new", "idx %s %s" % (chk.rng.choice(",_|/"), ";".join(csv(x, "") for x in c["data"]) or "-")] + ["next"] * len(steps)
        eps.append(e)
    conform(chk, exe, "IoTrace", ICFG, eps, "specification behaviours", chunk=60, parallel=8)
    eps = []
    for _ in range(chk.n(500, 8000)):
        rng, e = chk.rng, ["new"]
        if rng.random() < .5:
            ty = rng.choice(["int", "float", "bool"])
            toks = [{"int": rng.randrange(-20, 20), "float": rng.randrange(-40, 40) / 4, "bool": rng.randrange(2)}[ty] for _ in range(rng.choice([0, 1, 5, 20, 60]))]
            how = "bool" if ty == "bool" or rng.random() < .4 else rng.randrange(-5, 5) if ty == "int" else rng.randrange(-20, 20) / 4
            e.append("seq %s %s %d %s" % (ty, how, rng.choice([0, 1, 2, 3, 7, 30]), ";".join(map(str, toks)) or "-"))
            for _ in range(rng.choice([2, 8])):
                if rng.random() < .15: e.append("size %d" % rng.choice([0, 1, 4, 9]))
                e.append("next")
        else:
            rows = [csv([rng.choice([0, 1, 7, 10, 123, 99999, 99999, 2147483647, 2147483648, 4294967295]) for _ in range(rng.choice([0, 1, 1, 2, 5, 30]))], "") for _ in range(rng.choice([1, 2, 8]))]
            rows = [x + "," if x and rng.random() < .15 else x for x in rows]
            if rows == [""]: rows = ["1"]
            e.append("idx %s %s" % (rng.choice(",,,_|/"), ";".join(rows)))
            e += ["next"] * (len(rows) + rng.choice([0, 1, 3]))
        for _ in range(rng.choice([1, 3])):
            e.append("out %s %d %s" % (rng.choice(["count", "bits", "set"]), rng.choice([0, 1, 3, 10]),
                                       "|".join(message(rng, 12, rng.random() < .5, True) for _ in range(rng.choice([1, 1, 2, 4]))) if rng.random() < .95 else "-"))
        eps.append(e)
    chk.samples += eps[:2]
    conform(chk, exe, "IoTrace", ICFG, eps, "random streams", chunk=50, parallel=8)
