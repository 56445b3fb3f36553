"""N05: the graph of a network."""
from kvlib import *

TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"


def history(rng, nops):
    r, pops, prjs, n = ["new"], [], [], 0
    ask = lambda: "graph %d %d %d %d" % (rng.choice([100, 640, 1000]), rng.choice([100, 480, 800]), rng.choice([0, 5, 40]), rng.choice([0, 1, 7, 50, 300]))
    name = lambda: rng.choice(["-", "-", "#", "_", "same", "same", "name%d" % n])
    for _ in range(nops):
        op = rng.choices(["pop", "proj", "rmpop", "rmproj", "graph"], [10, 12, 2, 2, 3])[0]
        if op == "pop" and len(pops) < 14:
            u = "p%d" % n
            n += 1
            pops.append(u)
            r.append("pop %s %d %d %s" % (u, rng.randrange(3), rng.choice([0, 1, 2, 30]), name()))
        elif op == "proj" and len(prjs) < 24:
            u = "j%d" % n
            n += 1
            prjs.append(u)
            end = lambda: rng.choice(pops + ["out1"]) if rng.random() < .9 else rng.choice(["out1", "out2"])
            # a chain, a star or at random
            x, y = end(), end()
            if pops and rng.random() < .2: y = x
            r.append("proj %s %d %s %s %d %s" % (u, rng.randrange(3), x, y, rng.choice([0, 1, 5]), name()))
        elif op == "rmpop" and pops:
            r.append("rmpop " + pops.pop(rng.randrange(len(pops))))
        elif op == "rmproj" and prjs:
            r.append("rmproj " + prjs.pop(rng.randrange(len(prjs))))
        elif op == "graph":
            r.append(ask())
    return r + [ask()]


def n05(chk):
    exe = driver("vis")
    C = "SPECIFICATION Spec\nCONSTANTS N=%d SELF=%s OUTSIDE=%s\nINVARIANTS Disjoint Divided PartOfParts\nPROPERTY Ends\n"
    chk.model("NetGraphMC", C % (3, "TRUE", "TRUE"), "every graph of 3 nodes and the outside", 4096, 900)
    chk.model("NetGraphMC", C % (4, "FALSE", "FALSE"), "every graph of 4 nodes", 4096, 900)
    if chk.thorough:
        chk.model("NetGraphMC", C % (4, "FALSE", "TRUE"), "every graph of 4 nodes and the outside", 65536, 3000)
    eps = [history(chk.rng, chk.rng.choice([3, 10, 25, 50])) for _ in range(chk.n(600, 8000))]
    chk.samples += [eps[0], eps[-1]]
    conform(chk, exe, "NetGraphTrace", TCFG, eps, "networks as graphs", chunk=1 + len(eps) // 16, parallel=8)
