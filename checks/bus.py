"""B01 / B02: message bus and subscriptions."""
from kvlib import *
from pool import schedules

TRACE_CFG = "SPECIFICATION TraceSpec\nINVARIANTS NoDuplicates TypeMatches OwedIsNamed\nPOSTCONDITION Accepted\n"
CONSTS = "CONSTANTS EpNames={%s} Types={%s} Rcvs={%s} Snds={%s} MaxMsgs=%d MaxSubs=%d MaxOps=%d GEN=%s\n"


def consts(e, t, r, s, m, subs, ops, gen):
    j = lambda xs: ",".join('"%s"' % x for x in xs)
    return CONSTS % (j(e), j(t), j(r), j(s), m, subs, ops, "TRUE" if gen else "FALSE")


def body(rng, ty, big=False):
    if ty == "S":
        n = rng.choice([0, 1, 2, 3, 5] + ([40] if big else []))
        return "".join("%d." % rng.choice([0, 1, 7, 255, 65536, 4294967295, rng.randrange(1000)]) for _ in range(n)) or "-"
    n = rng.choice([0, 1, 2, 4] + ([20] if big else []))
    imp = ["%d:%s:%d:%d:%d" % (rng.choice([0, 1, 4294967296, rng.randrange(100)]), rng.choice(["0", "1", "-2.5", "0.125", "1024"]),
                               rng.randrange(5), rng.randrange(300), rng.randrange(300)) for _ in range(n)]
    return "/".join([rng.choice("pqr"), rng.choice("pqr"), rng.choice("fn")] + imp)


def random_episode(rng, kind, nops, lifecycle):
    neps, nsnd, nrcv = rng.choice([2, 3, 4]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])
    snds = ["s%d" % i for i in range(nsnd)]
    rcvs = ["r%d" % i for i in range(nrcv)] + (["s0"] if rng.random() < .3 else [])
    lines = ["new %s %d" % (kind, rng.randrange(1, 10 ** 9))]
    live, nxt, mid, pend = [], 0, 0, 0
    inflight = {}
    for _ in range(neps):
        lines.append("ep e%d" % nxt); live.append("e%d" % nxt); nxt += 1
    types = rng.choice([["S"], ["S", "I"], ["S", "I"]])
    # some subscriptions first
    for e in live:
        for _ in range(rng.choice([0, 1, 2, 3])):
            lines.append("sub %s %s %s %s" % (e, rng.choice(types), rng.choice(rcvs), ",".join(rng.sample(snds, rng.randrange(0, nsnd + 1))) or "-"))
    wl = dict(send=30, route=14, recv=14, recv1=8, unload=12, sub=6, unsub=2, rmrcv=2, rmsnd=3, ep=2, **{"del": 2}, move=2)
    if lifecycle:
        wl.update(sub=20, unsub=10, rmrcv=9, rmsnd=9, send=25)
    ops, wt = list(wl), list(wl.values())
    while len(lines) < nops:
        op = rng.choices(ops, wt)[0]
        if op == "ep":
            if len(live) < 5:
                lines.append("ep e%d" % nxt); live.append("e%d" % nxt); nxt += 1
            continue
        if not live:
            lines.append("ep e%d" % nxt); live.append("e%d" % nxt); nxt += 1
            continue
        e = rng.choice(live)
        ty, rcv = rng.choice(types), rng.choice(rcvs)
        if op == "send":
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                mid += 1
                ty = rng.choice(types)
                lines.append("send %s %s %s %d %s" % (e, ty, rng.choice(snds), mid, body(rng, ty)))
        elif op in ("sub", "rmsnd"):
            lines.append("%s %s %s %s %s" % (op, e, ty, rcv, ",".join(rng.sample(snds, rng.randrange(0 if op == "sub" else 1, nsnd + 1))) or "-"))
        elif op in ("unsub", "unload"):
            lines.append("%s %s %s %s" % (op, e, ty, rcv))
        elif op == "rmrcv":
            lines.append("rmrcv %s %s" % (e, rcv))
        elif op == "route":
            lines.append("route")
        elif op == "del":
            if len(live) > 1:
                live.remove(e); lines.append("del " + e)
        else:
            lines.append("%s %s" % (op, e))
    # drain: everything owed must have arrived
    lines.append("route")
    for e in live:
        lines.append("recv " + e)
    return lines


def from_behaviour(hist, kind, salt):
    lines = ["new %s %d" % (kind, salt)]
    for h in hist:
        lines.append(" ".join(str(x) for x in h) + (" -" if h[0] == "send" and h[2] == "S" else " p/q/n/1:2:0:3:4" if h[0] == "send" else ""))
    lines.append("route")
    alive = []
    for h in hist:
        if h[0] == "ep": alive.append(h[1])
        if h[0] == "del": alive.remove(h[1])
    lines += ["recv " + e for e in alive]
    return lines


def check(chk, lifecycle):
    exe = driver("bus")
    chk.model("BusMC", "SPECIFICATION Spec\n" + consts(["e1", "e2"], ["S", "I"], ["r1"], ["a"], chk.n(2, 3), 2, 99, False) +
              "INVARIANTS NoDuplicates TypeMatches InSendOrder OwedIsNamed\nPROPERTIES OncePerLife OwedDelivered Bystanders\n",
              "design, 2 endpoints x 2 types, all interleavings", 1000, timeout=800)
    chk.model("BusCPU", "SPECIFICATION Spec\nCONSTANTS EpNames={\"e1\",\"e2\"} Types={\"S\"} Rcvs={\"r1\"} Snds={\"a\"%s} MaxMsgs=%d\nINVARIANT Inv\nPROPERTY Refines\n" % (chk.n("", ",\"b\""), 3),
              "CPU bus algorithm refines the bus specification", 300, timeout=800)
    if chk.thorough:
        chk.model("BusMC", "SPECIFICATION Spec\n" + consts(["e1", "e2"], ["S"], ["r1", "r2"], ["a", "b"], 2, 2, 99, False) +
                  "INVARIANTS NoDuplicates TypeMatches InSendOrder OwedIsNamed\nPROPERTIES OncePerLife OwedDelivered Bystanders\n",
                  "design, 2 endpoints x 2 receivers x 2 senders", 1000, timeout=1500)
    # behaviours of the specification, replayed into the real buses
    gen = "SPECIFICATION Spec\nINVARIANT Emit\n"
    beh = []
    for depth, num in ((12, chk.n(60, 600)), (25, chk.n(60, 600)), (45, chk.n(30, 400))):
        beh += chk.behaviours("BusMC", gen + consts(["e1", "e2", "e3"], ["S", "I"], ["r1", "r2"], ["a", "b"], 12, 5, depth, True),
                              simulate="num=%d" % num, args=["-depth", str(depth + 2), "-seed", str(SEED)])
    eps = []
    for i, h in enumerate(beh):
        for kind in ("cpu", "zmq"):
            eps.append(from_behaviour(h, kind, SEED * 1000 + i))
    conform(chk, exe, "BusTrace", TRACE_CFG, eps, "specification behaviours", chunk=90)
    # random, wider
    eps = []
    for i in range(chk.n(160, 2500)):
        eps.append(random_episode(chk.rng, "zmq" if i % 2 else "cpu", chk.rng.choice([30, 60, 110]), lifecycle or i % 5 == 0))
    chk.samples += [eps[0][:40], eps[1][:40]]
    conform(chk, exe, "BusTrace", TRACE_CFG, eps, "random histories", chunk=14, parallel=8)
    # many messages in flight at once (a burst is one message of the specification)
    eps = []
    for kind in ("cpu", "zmq"):
        for n, ty in ((chk.n(2600, 30000), "S"), (2100, "I")):
            eps.append(["new %s 7" % kind, "ep e0", "ep e1", "sub e1 %s r0 s0" % ty, "sub e1 %s r1 s1,s0" % ty,
                        "send e0 %s s1 1 %s" % (ty, "9." if ty == "S" else "p/q/n"), "burst e0 %s s0 2 %d" % (ty, n), "route",
                        "recv e1", "burst e0 %s s1 %d %d" % (ty, n + 2, n), "route", "burst e0 %s s0 %d %d" % (ty, 2 * n + 2, n),
                        "unload e1 %s r0" % ty, "route", "recv e1", "unload e1 %s r1" % ty, "unload e1 %s r0" % ty])
    conform(chk, exe, "BusTrace", TRACE_CFG, eps, "bursts", chunk=1, timeout=60)
    # what the documented sender-set edit does (see known_findings)
    if lifecycle:
        ep = ["new cpu 5", "ep e1", "ep e2", "addsnd e2 S r1 a", "send e1 S a 1 7.", "route", "recv e2"]
        conform(chk, exe, "BusTrace", TRACE_CFG, [ep], "sender added on the subscription itself, CPU bus",
                classify=lambda e, k: "cpu-bus-add-sender")
        conform(chk, exe, "BusTrace", TRACE_CFG, [["new zmq 5"] + ep[1:]], "sender added on the subscription itself, ZMQ bus")
    chk.assumptions += ["up to some thousands of messages in flight",
                        "nothing is promised for messages whose own endpoint is destroyed before routing",
                        "one thread at a time receives through an endpoint"]


def threads(chk):
    """Several threads on one bus: the contract BusMT, the locks of the CPU bus, controlled and free executions."""
    cfg = "SPECIFICATION Spec\nCONSTANT SHARED=%s\nINVARIANTS Contract OneLock\n"
    S, R, C = lambda e: ["S", e], ["R", ""], lambda e: ["C", e]
    progs = [[[S("e0"), S("e0"), C("e1"), C("e1")], [R, R, C("e0")]], [[S("e0"), R, C("e0")], [S("e0"), R, C("e1")]]]
    if chk.thorough:
        progs += [[[S("e0"), S("e0"), C("e1")], [R, C("e0")], [S("e1"), R, R]], [[S("e0"), R, C("e0")], [S("e0"), S("e1")], [R, C("e1")]]]
    for p in progs:
        f = os.path.join(chk.work, "progs.json")
        json.dump(p, open(f, "w"))
        chk.model("BusMTImpl", cfg % "TRUE" + (chk.n("", "PROPERTY Ends\n")), "locks of the CPU bus keep the contract: %s" % p, 100, 1500, env={"PROGS": f})
    # the model is not blind: without the endpoint's lock messages are lost
    r = tlc("BusMTImpl", cfg % "FALSE", env={"PROGS": f})
    if "Contract is violated" not in r.out:
        raise CheckError("BusMTImpl without shared locks should break the contract")
    exe, rng = driver("busmt"), chk.rng

    def episode(kind):
        ne, nt = rng.choice([1, 2, 2, 3]), rng.choice([2, 2, 3])
        snds = ["s%d" % i for i in range(rng.choice([1, 2, 3]))]
        subs = {}
        for _ in range(rng.choice([1, 2, 3, 4])):
            subs[("e%d" % rng.randrange(ne), rng.choice("SSI"), rng.choice(["r0", "r1"]))] = "+".join(rng.sample(snds, rng.randrange(1, len(snds) + 1)))
        # an endpoint's receiving thread; on the ZMQ bus the same thread sends, too
        owner = [rng.randrange(nt) for _ in range(ne)]
        progs = []
        for t in range(nt):
            mine = [e for e in range(ne) if owner[e] == t]
            ops = []
            for _ in range(rng.choice([1, 2, 4, 6])):
                o = rng.choice("SSSRRC")
                es = mine if o == "C" or kind == "zmq" else list(range(ne))
                if not es or o == "R" and kind == "zmq" and t:
                    continue
                ops.append(o if o == "R" else "C:e%d" % rng.choice(es) if o == "C" else "S:e%d:%s:%s" % (rng.choice(es), rng.choice(snds), rng.choice("SSI")))
            progs.append(",".join(ops) or "-")
        return "new %s %d %d %s %s" % (kind, rng.randrange(1, 10 ** 9), ne, ";".join(":".join(k) + ":" + v for k, v in sorted(subs.items())), " ".join(progs))

    eps = [episode("cpu") for _ in range(chk.n(1200, 40000))]
    chk.samples += eps[:2]
    schedules(chk, exe, eps, "controlled schedules", module="BusMTTrace")
    eps = [episode(k) for _ in range(chk.n(100, 3000)) for k in ("cpu", "zmq")]
    schedules(chk, exe, eps, "free running", free=True, module="BusMTTrace", chunk=100)
    chk.assumptions += ["under the controlled scheduler (CPU bus) memory is sequentially consistent", "subscriptions do not change while another thread routes"]


def b01(chk):
    check(chk, False)
    threads(chk)


def b02(chk): check(chk, True)
