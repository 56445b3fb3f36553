"""P01-P03: the Python package."""
from kvlib import *

PCFG = "SPECIFICATION TraceSpec\nINVARIANT Sane\nPOSTCONDITION Accepted\n"
KINDS, JKINDS = ["blifat", "srblifat", "altai"], ["delta", "sr"]
WRITE = {"dopamine_plasticity_time": 7, "free_synaptic_resource": 2.5, "synaptic_resource_threshold": -1.25, "resource_drain_coefficient": 9,
         "stability": .5, "stability_change_parameter": 4.0, "stability_change_at_isi": 8.75, "isi_max": 77, "d_h": -.5, "isi_status": 2,
         "last_step": 12345, "first_isi_spike": 99, "is_being_forced": True}
READ = ["potential", "activation_threshold", "dopamine_value", "min_potential"]


def ln(op, **a):
    return "%s %s" % (op, json.dumps(a, separators=(",", ":")))


def random_history(rng, nops):
    """A random program over the package."""
    lines = ["new %d" % rng.randrange(1, 10 ** 9)]
    st = dict(obj={}, pop={}, prj={}, net={}, tag=0, nm=0)

    def fresh(c):
        st["nm"] += 1
        return c + str(st["nm"])

    def gen(kind, n, ends=False, bad=True):
        """(list, number of items or -1 when the generator fails)"""
        r, size = [], 0
        for i in range(n):
            x = rng.random()
            if bad and x < .03:
                it = {"g": "raise", "v": 0}
            elif bad and x < .06:
                it = {"g": "type", "v": rng.randrange(4)}
            elif x < .18:
                it = {"g": "none", "v": 0}
            else:
                mine = [o for o in st["obj"] if st["obj"][o] == kind]
                if mine and x < .4:
                    it = {"g": "obj", "v": 0, "o": rng.choice(mine)}
                else:
                    it = {"g": "tag", "v": st["tag"] % 400}
                    st["tag"] += 1
                if ends:
                    it.update(s=rng.choice([0, 1, 2, 300, 70000]), d=rng.choice([0, 1, 2, 4000000000]))
                if size >= 0:
                    size += 1
            if it["g"] in ("raise", "type"):
                size = -1
            if it["g"] not in ("tag", "obj") and ends:
                it.update(s=0, d=0)
            r.append(it)
        return r, size

    ops = dict(mk=6, set=6, mkpop=8, add=7, rm=5, rmmany=5, setat=5, get=7, mkprj=7, addsyn=6, getj=6, mknet=3, npop=7, nprj=6, nrmpop=4,
               nrmprj=3, ngetpop=5, ngetprj=4, model=3, setnet=1, detach=2, inch=4, outch=4, drop=4, nocall=1, uids=1, dflt=1, synth=2)
    uids = ["u%d" % i for i in range(4)]
    jids = ["v%d" % i for i in range(4)]
    pick = lambda d: rng.choice(list(d)) if d else None
    while len(lines) < nops:
        op = rng.choices(list(ops), list(ops.values()))[0]
        p, j, o, n = pick(st["pop"]), pick(st["prj"]), pick(st["obj"]), pick(st["net"])
        models = [x for x in st["net"] if st["net"][x]["model"]]
        plain = [x for x in st["net"] if not st["net"][x]["model"]]
        full = sum(len(d) for d in (st["obj"], st["pop"], st["prj"], st["net"])) > 9
        if op == "mk" and not full:
            k, o = rng.choice(KINDS + JKINDS), fresh("o")
            lines.append(ln("mk", o=o, k=k, v=st["tag"] % 400)); st["tag"] += 1
            st["obj"][o] = k
        elif op == "set" and o and st["obj"][o] in KINDS:
            k = st["obj"][o]
            f = rng.choice(list(WRITE)) if k == "srblifat" and rng.random() < .8 else rng.choice(READ[:2])
            lines.append(ln("set", o=o, f=f, v=WRITE.get(f, 1.5)))
        elif op == "mkpop" and not full:
            k, q = rng.choice(KINDS), fresh("p")
            how = rng.choice(["uid", "uid", "uid", "anon"])
            u = rng.choice(uids) if how == "uid" else fresh("w")
            l, size = gen(k, rng.choice([0, 1, 2, 3, 5]))
            lines.append(ln("mkpop", p=q, u=u, k=k, how=how, list=l))
            if size >= 0:
                st["pop"][q] = [k, size]
        elif op == "add" and p and st["pop"][p][1] < 12:
            k, size = st["pop"][p]
            l, m = gen(k, rng.choice([0, 1, 2, 4]))
            lines.append(ln("add", p=p, k=k, list=l))
            if m >= 0:
                st["pop"][p][1] += m
            else:
                # how many were added is open: no positions of this one from here on
                lines.append(ln("drop", x=p)); del st["pop"][p]
        elif op == "rm" and p and st["pop"][p][1]:
            lines.append(ln("rm", p=p, i=rng.choice([0, st["pop"][p][1] - 1, rng.randrange(st["pop"][p][1])]))); st["pop"][p][1] -= 1
        elif op == "rmmany" and p:
            size = st["pop"][p][1]
            S = rng.sample(range(size), rng.randint(0, size))
            if S and rng.random() < .2:
                S.append(S[0])
            lines.append(ln("rmmany", p=p, i=rng.randrange(2), **{"is": S})); st["pop"][p][1] -= len(set(S))
        elif op == "setat":
            c = [q for q in st["pop"] if st["pop"][q] and st["pop"][q][0] == "srblifat" and st["pop"][q][1]]
            if c:
                q = rng.choice(c)
                f = rng.choice([x for x in WRITE if x != "isi_status"])
                lines.append(ln("setat", p=q, i=rng.randrange(st["pop"][q][1]), f=f, v=WRITE[f]))
        elif op in ("get", "getj") and (p if op == "get" else j):
            d, x = (st["pop"], p) if op == "get" else (st["prj"], j)
            i = rng.choice([0, d[x][1] - 1, d[x][1], d[x][1] + 1, 1000, -1, rng.randrange(d[x][1] + 1)])
            lines.append(ln(op, i=i, k=d[x][0], **{"p" if op == "get" else "j": x}))
        elif op == "mkprj" and not full:
            k, q = rng.choice(JKINDS), fresh("j")
            how = rng.choice(["uid", "uid", "uid", "anon", "empty", "anonempty"])
            u = rng.choice(jids) if how in ("uid", "empty") else fresh("w")
            l, size = gen(k, rng.choice([0, 1, 2, 3, 5]), True) if "empty" not in how else ([], 0)
            lines.append(ln("mkprj", j=q, u=u, k=k, how=how, pre=rng.choice(uids + [""]), post=rng.choice(uids), list=l))
            if size >= 0:
                st["prj"][q] = [k, size]
        elif op == "addsyn" and j and st["prj"][j][1] < 12:
            l, m = gen(st["prj"][j][0], rng.choice([0, 1, 2, 4]), True)
            lines.append(ln("addsyn", j=j, k=st["prj"][j][0], list=l))
            if m >= 0:
                st["prj"][j][1] += m
            else:
                lines.append(ln("drop", x=j)); del st["prj"][j]
        elif op == "mknet" and not full:
            q = fresh("n")
            lines.append(ln("mknet", n=q, how=rng.choice(["uid", "anon"])))
            st["net"][q] = dict(model=False)
        elif op == "npop" and n and p:
            lines.append(ln("npop", n=n, p=p))
        elif op == "nprj" and n and j:
            lines.append(ln("nprj", n=n, j=j))
        elif op in ("nrmpop", "nrmprj") and n:
            lines.append(ln(op, n=n, u=rng.choice(uids if op == "nrmpop" else jids)))
        elif op in ("ngetpop", "ngetprj") and n and not full:
            # what comes back is not known here: it is only looked at and dropped
            q = fresh("g")
            u = rng.choice(uids if op == "ngetpop" else jids)
            lines.append(ln(op, n=n, u=u, **{"p" if op == "ngetpop" else "j": q}))
            lines.append(ln(op.replace("get", "rm"), n=n, u=u))
            lines.append(ln("drop", x=q))
        elif op == "model" and plain:
            m, x = fresh("m"), rng.choice(plain)
            lines.append(ln("model", m=m, n=x))
            del st["net"][x]
            st["net"][m] = dict(model=True)
        elif op == "setnet" and models and plain:
            x = rng.choice(plain)
            lines.append(ln("setnet", m=rng.choice(models), n=x))
            del st["net"][x]
        elif op == "detach" and models:
            m, x = rng.choice(models), fresh("n")
            lines.append(ln("detach", m=m, n=x))
            del st["net"][m]
            st["net"][x] = dict(model=False)
        elif op in ("inch", "outch") and models:
            lines.append(ln(op, m=rng.choice(models), ch=rng.choice(["x", "y"]), u=rng.choice(jids if op == "inch" else uids)))
        elif op == "drop":
            x = pick([y for d in ("obj", "pop", "prj", "net") for y in st[d]])
            if x:
                lines.append(ln("drop", x=x))
                for d in ("obj", "pop", "prj", "net"):
                    st[d].pop(x, None)
        elif op == "nocall":
            w = rng.choice(["pop", "prj"] + (["add"] if p else []) + (["addsyn"] if j else []))
            lines.append(ln("nocall", what=w, k=rng.choice(KINDS if w == "pop" else JKINDS), p=p if w == "add" else j or ""))
        elif op == "uids":
            lines.append(ln("uids", names=rng.sample(uids + jids + [""], 4)))
        elif op == "dflt":
            lines.append(ln("dflt", k=rng.choice(KINDS + JKINDS)))
        elif op == "synth":
            lines.append(ln("synth", w=rng.choice([.5, -2.25, 1024.0, 3.0]), d=rng.choice([1, 2, 70000]), ty=rng.randrange(5)))
    return lines


def p01(chk):
    C = "SPECIFICATION Spec\nCONSTANTS MaxOps=%d GEN=%s\n"
    chk.model("PyFaceMC", C % (chk.n(4, 6), "FALSE") + "VIEW V\nINVARIANTS Sane Held OnlyModels\nPROPERTIES Copies Order\n", "every short program", 1000, 900)
    exe = py_exe(build_python(), "py_driver.py", chk.work)
    eps = [["new %d" % chk.rng.randrange(1, 10 ** 9)] + [ln(**h) for h in b]
           for b in chk.behaviours("PyFaceMC", C % (14, "TRUE") + "INVARIANT Emit\n", simulate="num=%d" % chk.n(60, 2000), args=["-depth", "16", "-seed", str(SEED)])]
    eps += [random_history(chk.rng, chk.rng.choice([30, 80, 150])) for _ in range(chk.n(150, 3000))]
    chk.samples += [eps[0], eps[-1][:20]]
    conform(chk, exe, "PyFaceTrace", PCFG, eps, "programs", chunk=chk.n(25, 60), parallel=8)


BKCFG = "SPECIFICATION PySpec\nPOSTCONDITION Accepted\n"
RCFG = "SPECIFICATION PySpec\nPOSTCONDITION Accepted\n"
NONE = {"k": 0, "b": [], "pairs": []}


def py_model(rng, mt, wide=False):
    """A random model of the kinds Python programs can make."""
    from model import random_model
    from engine import Net, relay
    net = Net(rng)
    kinds = ["blifat", "srblifat"] + ([] if mt else ["altai"])
    for p in ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]:
        k = rng.choice(kinds)
        net.pop(p, k, [relay(k, rng) for _ in range(rng.choice([1, 2, 3]))])
    names = [p[0] for p in net.pops]
    size = {p[0]: len(p[2]) for p in net.pops}
    for j in range(rng.choice([1, 2, 3, 4])):
        post = rng.choice(names)
        syn = [(rng.randrange(3), rng.randrange(size[post]), rng.choice([1.0, 1.0, 2.0]), rng.choice([1, 1, 1, 2, 3]), 0) for _ in range(rng.choice([0, 1, 3, 5]))]
        net.proj("j%d" % j, rng.choice(["delta", "delta", "sr"]), rng.choice(names + ["", ""]), post, syn, locked=1)
    m = list(random_model(rng, mt, base=None, wide=wide))
    projs = [p["id"] for p in net.projs]
    chans = sorted({c for c, _ in m[1]})
    from model import subset
    m[0] = net
    m[1] = [[c, j] for c in chans for j in subset(rng, projs, 1)[:3]]
    m[2] = [[c, p] for c in sorted({c for c, _ in m[2]}) for p in subset(rng, names, 1)]
    m[4], m[6] = [], NONE
    senders = names + chans
    m[5] = [{"id": "w%d" % i, "kind": 0, "from": subset(rng, senders)} if rng.random() < .6 else
            {"id": "w%d" % i, "kind": 1, "from": subset(rng, projs)} for i in range(rng.choice([0, 1, 2, 3]))]
    return m


def py_commands(rng, n, outch, obs):
    from model import commands
    r = []
    for c in commands(rng, n, outch, [], obs):
        a = c.split()
        if a[0] == "run" and len(a) == 3:
            k, x = int(a[1]), int(a[2].split("@")[1])
            if a[2].startswith("p:"):
                c += rng.choice(["", " raise"])
            elif obs and a[2].split("@")[0] == "o:" + obs[-1]["id"]:
                c += rng.choice(["", " raise"])
            if a[2].startswith("o:") and x <= k and rng.random() < .4:
                c += " free"
        r.append(c)
    r.append("leave")
    for c in sorted({c for c, _ in outch}):
        r += ["update " + c, "read %s 0 1000" % c]
    return r


def p02(chk):
    from model import wrap, random_model
    from learn import plastic
    pkg = build_python()
    exe = py_exe(pkg, "py_run.py", chk.work)
    eps = []
    for i in range(chk.n(200, 4000)):
        mt = int(chk.rng.random() < .4)
        m = py_model(chk.rng, mt)
        if chk.rng.random() < .06:          # a channel without data
            drop = chk.rng.choice(m[1])[0]
            m[3] = [g for g in m[3] if g[0] != drop]
            eps.append([wrap(m[0], chk.rng, *m[1:], mt=mt, threads=2)])
            continue
        eps.append([wrap(m[0], chk.rng, *m[1:], mt=mt, threads=2)] + py_commands(chk.rng, chk.rng.choice([6, 14]), m[2], m[5]))
    chk.samples += [eps[0][:8]]
    conform(chk, exe, "PyRunTrace", RCFG, eps, "models of Python programs", chunk=chk.n(25, 200), parallel=8, tlc_timeout=1500, env={"PYTHONMALLOC": "debug"})
    eps = []
    for i in range(chk.n(60, 1000)):
        mt = int(chk.rng.random() < .4)
        net, _ = plastic(chk.rng, ["srblifat"] * 3 + ["blifat"] + ([] if mt else ["altai"]), 1, mt)
        m = list(random_model(chk.rng, mt, base=net))
        m[4], m[6] = [], NONE
        own = {p[0] for p in net.pops} | {c for c, _ in m[1]}
        for o in m[5]:
            if o["kind"] == 0: o["from"] = [x for x in o["from"] if x in own]
        for p in net.projs: p["locked"] = 1
        eps.append([wrap(m[0], chk.rng, *m[1:], mt=mt, threads=2)] +
                   ["copy", "unlock", "run 5", "copy", "lock", "copy", "run 3", "unlock", "run 10", "copy", "leave"])
    conform(chk, exe, "PyRunTrace", RCFG, eps, "learning models of Python programs", chunk=chk.n(10, 100), parallel=8, tlc_timeout=1500)
    # runs of a bare backend with conditions that stop it, end its initialisation or raise
    import backend
    eps = []
    for _ in range(chk.n(200, 4000)):
        r = []
        for l in backend.rand_episode(chk.rng, chk.rng.choice([4, 10, 25])):
            w = l.split()
            if w[0] == "new": l = "new %s - %s" % (chk.rng.choice(["st", "mt"]), w[3])
            elif w[0] == "start":
                l = " ".join(["start", chk.rng.choice(["pred", "two"])] + [x for x in w[2:] if x[:4] not in ("init", "step")])
            elif w[0] not in ("stop", "uninit", "rawstep", "select"): continue
            r.append(l)
        eps.append(r)
    conform(chk, py_exe(pkg, "py_backend.py", chk.work), "PyBackendTrace", BKCFG, eps, "runs of Python programs", chunk=50, parallel=8, env={"PYTHONMALLOC": "debug"})
    # what a backend holds
    import hold
    eps = [hold.episode(chk.rng, chk.rng.choice([6, 12, 25])) for _ in range(chk.n(250, 5000))]
    eps = [[l.replace(":L:", ":B:").replace(":SA:", ":B:") for l in e] for e in eps]
    conform(chk, py_exe(pkg, "py_hold.py", chk.work), "PyHoldTrace", BKCFG, eps, "what a backend of a Python program holds", chunk=50, parallel=8, env={"PYTHONMALLOC": "debug"})


BCFG = "SPECIFICATION PySpec\nINVARIANTS NoDuplicates TypeMatches OwedIsNamed\nPOSTCONDITION Accepted\n"


def p03(chk):
    import bus
    exe = py_exe(build_python(), "py_bus.py", chk.work)
    beh = chk.behaviours("BusMC", "SPECIFICATION Spec\nINVARIANT Emit\n" + bus.consts(["e1", "e2", "e3"], ["S", "I"], ["r1", "r2"], ["a", "b"], 12, 5, 25, True),
                         simulate="num=%d" % chk.n(60, 1500), args=["-depth", "27", "-seed", str(SEED)])
    eps = [bus.from_behaviour(h, kind, SEED * 1000 + i) for i, h in enumerate(beh) for kind in ("cpu", "zmq")]
    eps += [bus.random_episode(chk.rng, "zmq" if i % 2 else "cpu", chk.rng.choice([30, 60, 110]), chk.rng.random() < .3) for i in range(chk.n(120, 3000))]
    # what Python programs can do, with wrong calls here and there
    for j, e in enumerate(eps):
        r, live = [], set()
        for l in e:
            w = l.split()
            if w[0] == "ep": live.add(w[1])
            if w[0] == "del": live.discard(w[1])
            if w[0] not in ("move", "addsnd", "rmsnd", "recv1"):
                r.append(l)
            if live and chk.rng.random() < .03:
                r.append("bad %s %d" % (chk.rng.choice(sorted(live)), chk.rng.randrange(7)))
        eps[j] = r
    chk.samples += [eps[0][:30], eps[-1][:30]]
    conform(chk, exe, "PyBusTrace", BCFG, eps, "Python programs on the bus", chunk=30, parallel=8, env={"PYTHONMALLOC": "debug"})
