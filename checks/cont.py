"""C01 / C02: projection and population containers."""
from kvlib import *

PCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\n"


def line(h):
    return " ".join(str(x) for x in h)


def rand_list(rng, n, neurons, tag):
    r = []
    for _ in range(n):
        if rng.random() < .12:
            r.append("_")
        else:
            r.append("%d>%d:%d" % (rng.choice(neurons), rng.choice(neurons), tag[0]))
            tag[0] += 1
    return ",".join(r) or "-", sum(x != "_" for x in r)


def proj_episode(rng, kind, nops):
    lines = ["new proj %d %d" % (kind, rng.randrange(1, 10 ** 9))]
    # few distinct neurons -> many multi-edges; sometimes large indexes
    neurons = rng.choice([[0, 1], [0, 1, 2], list(range(6)), [0, 5, 4294967295, 70000], list(range(40))])
    tag, cnt, nm = [0], {}, 0

    def make():
        nonlocal nm
        p = "p%d" % nm
        nm += 1
        how = rng.choice(["empty", "gen", "anonempty", "anon"])
        l, n = rand_list(rng, rng.randrange(0, 9), neurons, tag) if how in ("gen", "anon") else ("-", 0)
        lines.append("make %s %s %s %s %s" % (p, rng.choice("AB"), rng.choice("AB"), how, l))
        cnt[p] = n

    make()
    wl = dict(add=20, rm=9, rmif=5, rmpre=7, rmpost=9, find=30, clear=2, set=4, copy=3, assign=2, move=2, lock=1, unlock=1,
              make=2, addthrow=2)
    while len(lines) < nops:
        op = rng.choices(list(wl), list(wl.values()))[0]
        if op == "make":
            if len(cnt) < 3: make()
            continue
        p = rng.choice(list(cnt))
        x = rng.choice(neurons + [3])
        if op in ("add", "addthrow"):
            k = rng.choice([0, 1, 1, 2, 3, 6]) if cnt[p] < 60 else 1
            l, n = rand_list(rng, k, neurons, tag)
            if op == "add":
                lines.append("add %s %s" % (p, l)); cnt[p] += n
            else:
                # the size afterwards is open: end with a clear so that later positions stay valid
                lines.append("addthrow %s %s %d" % (p, l, rng.randrange(0, k + 2)))
                for _ in range(2):
                    lines.append("find %s %s %d" % (p, rng.choice(["pre", "post"]), x))
                lines.append("clear " + p); cnt[p] = 0
        elif op == "rm":
            if cnt[p]:
                lines.append("rm %s %d" % (p, rng.choice([0, cnt[p] - 1, rng.randrange(cnt[p])]))); cnt[p] -= 1
        elif op in ("rmif", "rmpre", "rmpost"):
            lines.append("rmif %s %d %d" % (p, rng.choice([1, 2, 3]), rng.randrange(3)) if op == "rmif" else "%s %s %d" % (op, p, x))
            # sizes are not tracked here: only position-free calls follow until the next clear / copy from a known one
            cnt[p] = 0
        elif op == "find":
            lines.append("find %s %s %d" % (p, rng.choice(["pre", "post"]), x))
        elif op == "set":
            if cnt[p]:
                lines.append("set %s %d %d" % (p, rng.randrange(cnt[p]), tag[0])); tag[0] += 1
        elif op in ("copy", "assign", "move"):
            if op == "assign":
                o = rng.choice(list(cnt))
                if o != p: lines.append("assign %s %s" % (p, o)); cnt[o] = cnt[p]
            elif len(cnt) < 4:
                o = "q%d" % nm
                nm += 1
                lines.append("%s %s %s" % (op, p, o)); cnt[o] = cnt[p]
                if op == "move": del cnt[p]
        else:
            lines.append("%s %s" % (op, p))
            if op == "clear": cnt[p] = 0
    for p in cnt:
        for x in neurons[:5]:
            lines += ["find %s pre %d" % (p, x), "find %s post %d" % (p, x)]
    return lines


def c01(chk):
    exe = driver("cont")
    base = "SPECIFICATION Spec\nCONSTANTS Names={%s} Neurons={0,1} MaxLen=%d MaxOps=%d GEN=%s\n"
    chk.model("ProjectionMC", base % ('"p"', chk.n(4, 6), 99, "FALSE") + "INVARIANTS IndexAgrees PositionsSorted CountsSum\nPROPERTY Bystander\n",
              "one projection with lazy lookup index, all histories", 300, timeout=800)
    chk.model("ProjectionMC", base % ('"p","q"', chk.n(1, 2), 99, "FALSE") + "INVARIANTS IndexAgrees PositionsSorted CountsSum\nPROPERTY Bystander\n",
              "two projections, copies", 300, timeout=800)
    eps = []
    for depth, num in ((10, chk.n(120, 1500)), (30, chk.n(120, 1500))):
        for i, h in enumerate(chk.behaviours("ProjectionMC", base % ('"p","q"', 12, depth, "TRUE") + "INVARIANT Emit\n",
                                             simulate="num=%d" % num, args=["-depth", str(depth + 2), "-seed", str(SEED)])):
            eps.append(["new proj %d %d" % (i % 3, i + 1)] + [line(x) for x in h])
    conform(chk, exe, "ProjectionTrace", PCFG, eps, "specification behaviours", chunk=60)
    eps = [proj_episode(chk.rng, i % 3, chk.rng.choice([20, 60, 120])) for i in range(chk.n(300, 6000))]
    chk.samples += [eps[0][:30], eps[1][:30]]
    conform(chk, exe, "ProjectionTrace", PCFG, eps, "random histories", chunk=40, parallel=8)
    chk.assumptions += ["positions passed to remove_synapse are within range", "connection ends are not edited in place"]


def pop_episode(rng, kind, nops):
    lines = ["new pop %d %d" % (kind, rng.randrange(1, 10 ** 9))]
    tag, cnt, nm = 0, {}, 0

    def lst(n, holes=True):
        nonlocal tag
        r = []
        for _ in range(n):
            if holes and rng.random() < .15: r.append("_")
            else: r.append(str(tag)); tag += 1
        return ",".join(r) or "-", sum(x != "_" for x in r)

    wl = dict(make=4, add=14, rm=10, rmmany=12, set=8, setall=3, copy=4, assign=3, move=3)
    while len(lines) < nops:
        op = rng.choices(list(wl), list(wl.values()))[0]
        if op == "make" or not cnt:
            if len(cnt) < 3:
                p = "p%d" % nm; nm += 1
                l, n = lst(rng.randrange(0, 8))
                lines.append("make %s %s %s" % (p, rng.choice(["uid", "anon"]), l)); cnt[p] = n
            continue
        p = rng.choice(list(cnt))
        if op == "add":
            l, n = lst(rng.choice([0, 1, 2, 5]))
            lines.append("add %s %s" % (p, l)); cnt[p] += n
        elif op == "rm" and cnt[p]:
            lines.append("rm %s %d" % (p, rng.choice([0, cnt[p] - 1, rng.randrange(cnt[p])]))); cnt[p] -= 1
        elif op == "rmmany":
            k = rng.randrange(0, cnt[p] + 1)
            s = rng.sample(range(cnt[p]), k)
            m = rng.random()
            if m < .4: s.sort()
            elif m < .5: s.sort(reverse=True)
            elif m < .6 and s: s.append(rng.choice(s))
            lines.append("rmmany %s %s" % (p, ",".join(map(str, s)) or "-")); cnt[p] -= k
        elif op == "set" and cnt[p]:
            lines.append("set %s %d %d %s" % (p, rng.randrange(cnt[p]), tag, rng.choice(["call", "index", "iter"]))); tag += 1
        elif op == "setall":
            l, n = lst(rng.randrange(0, 7), False)
            lines.append("setall %s %s %s" % (p, l, rng.choice(["copy", "move"]))); cnt[p] = n
        elif op == "assign":
            o = rng.choice(list(cnt))
            if o != p: lines.append("assign %s %s" % (p, o)); cnt[o] = cnt[p]
        elif op in ("copy", "move") and len(cnt) < 4:
            o = "q%d" % nm; nm += 1
            lines.append("%s %s %s" % (op, p, o)); cnt[o] = cnt[p]
            if op == "move": del cnt[p]
    return lines


def c02(chk):
    exe = driver("cont")
    base = "SPECIFICATION Spec\nCONSTANTS Names={%s} MaxLen=%d MaxOps=%d GEN=%s\n"
    chk.model("PopulationMC", base % ('"p","q"', 4, chk.n(6, 8), "FALSE") + "CONSTRAINT Bounded\nINVARIANTS NoDuplicates\nPROPERTY RemovalKeepsOrder\n",
              "two populations, all histories", 300, timeout=800)
    eps = []
    for depth, num in ((8, chk.n(100, 1500)), (25, chk.n(100, 1500))):
        for i, h in enumerate(chk.behaviours("PopulationMC", base % ('"p","q"', 5, depth, "TRUE") + "INVARIANT Emit\n",
                                             simulate="num=%d" % num, args=["-depth", str(depth + 2), "-seed", str(SEED)])):
            eps.append(["new pop %d %d" % (i % 5, i + 1)] + [line(x) for x in h])
    conform(chk, exe, "PopulationTrace", PCFG, eps, "specification behaviours", chunk=60)
    eps = [pop_episode(chk.rng, i % 5, chk.rng.choice([20, 60])) for i in range(chk.n(300, 6000))]
    chk.samples += [eps[0][:30], eps[1][:30]]
    conform(chk, exe, "PopulationTrace", PCFG, eps, "random histories", chunk=40, parallel=8)
    chk.assumptions += ["indexes passed to the removals are within range"]
