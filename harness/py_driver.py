"""Drives the Python package: parameters, populations, projections, networks and models (one JSON event per script line).

A script line is 'new <salt>' or '<op> <json arguments>'; the event repeats the arguments, adds what the call did, and what every
object the program holds looks like afterwards: through Python (flag 'same') and inside the library (the values shown)."""
import collections
import gc
import json
import sys

import knp.base_framework._knp_python_framework_base_framework as F
import knp.core._knp_python_framework_core as C
import knp.neuron_traits._knp_python_framework_neuron_traits as N
import knp.synapse_traits._knp_python_framework_synapse_traits as S
import kvpy

POP = {"blifat": C.BLIFATNeuronPopulation, "srblifat": C.SynapticResourceSTDPBLIFATNeuronPopulation, "altai": C.AltAILIFPopulation}
PRJ = {"delta": C.DeltaSynapseProjection, "sr": C.SynapticResourceSTDPDeltaSynapseProjection}
KIND = {0: "blifat", 1: "srblifat", 2: "altai"}
JKIND = {0: "delta", 2: "sr"}
PAR = {"blifat": N.BLIFATNeuronParameters, "srblifat": N.SynapticResourceSTDPBLIFATNeuronParameters, "altai": N.AltAILIFNeuronParameters,
       "delta": S.DeltaSynapseParameters, "sr": S.SynapticResourceSTDPDeltaSynapseParameters}
TAGGED = {}


def val(x):
    """A value as text: the same for a value read in Python and the field it stands for."""
    if isinstance(x, float):
        return repr(x)
    return str(int(x))


def item(kind, f):
    """[t, ch] of the fields of a parameter set."""
    votes = collections.Counter()
    for i, x in enumerate(f.values()):
        if isinstance(x, float):
            t = x + 3 - i / 64
        else:
            t = (x - i) / 64
        if t == int(t) and t >= 0:
            votes[int(t)] += 1
    t = votes.most_common(1)[0][0] if votes else -1
    if (kind, t) not in TAGGED:
        TAGGED[kind, t] = kvpy.tagged(kind, t) if t >= 0 else {}
    ref = TAGGED[kind, t]
    return {"t": t, "ch": [[n, val(x)] for n, x in f.items() if n not in ref or ref[n] != x]}


def attributes(o):
    r = []
    for base, x in (("", o), ("rule.", getattr(o, "rule", None))):
        if x is not None:
            for n in sorted(dir(x)):
                if not n.startswith("_") and n != "rule":
                    v = getattr(x, n)
                    if not callable(v) or isinstance(v, int):
                        r.append([base + n, val(v)])
    return r


def held(o):
    return [[n, val(x)] for n, x in kvpy.fields(o).items()]


def made(k, o, f, v):
    """Is this the value the field was made with?"""
    t = item(k, kvpy.fields(o))["t"]
    return TAGGED[k, t].get(f) == v


class Episode:
    def __init__(self, salt):
        kvpy.reset(salt)
        self.obj, self.pop, self.prj, self.net, self.model = {}, {}, {}, {}, {}
        self.calls = []

    def network(self, n):
        return self.model[n].network if n in self.model else self.net[n]

    # --- what the objects look like
    def see_pop(self, p, r):
        """Does Python show what the population holds?"""
        return (len(p) == len(r["c"]) and kvpy.name(p.uid) == r["uid"] and [kvpy.fields(x) for x in p] == r["c"]
                and [kvpy.fields(p[i]) for i in range(len(p))] == r["c"])

    def see_prj(self, p, r):
        show = lambda x: (x[1], x[2], kvpy.fields(x[0]))
        return (len(p) == len(r["c"]) and kvpy.name(p.uid) == r["uid"] and [show(x) for x in p] == r["c"]
                and [show(p[i]) for i in range(len(p))] == r["c"])

    def dump_pop(self, r):
        k = KIND[r["kind"]]
        return {"uid": r["uid"], "k": k, "c": [item(k, f) for f in r["c"]]}

    def dump_prj(self, r):
        k = JKIND[r["kind"]]
        return {"uid": r["uid"], "k": k, "pre": r["pre"], "post": r["post"], "c": [[s, d, item(k, f)] for s, d, f in r["c"]]}

    def dump_net(self, name):
        n = self.network(name)
        ps, js = kvpy.network(n)
        same = n.populations_count == len(ps) and n.projections_count == len(js)
        same = same and [kvpy.name(x.uid) for x in n.populations_range()] == [x["uid"] for x in ps]
        same = same and [kvpy.name(x.uid) for x in n.projections_range()] == [x["uid"] for x in js]
        same = same and all(self.see_pop(x, r) for x, r in zip(n.populations_range(), ps))
        same = same and all(self.see_prj(x, r) for x, r in zip(n.projections_range(), js))
        same = same and all(self.see_pop(n.get_population(kvpy.uid(r["uid"])), r) for r in ps)
        same = same and all(self.see_prj(n.get_projection(kvpy.uid(r["uid"])), r) for r in js)
        ins, outs = kvpy.channels(self.model[name]) if name in self.model else ([], [])
        return {"n": name, "same": bool(same), "model": name in self.model, "ins": ins, "outs": outs,
                "pops": [self.dump_pop(r) for r in ps], "projs": [self.dump_prj(r) for r in js]}

    def state(self):
        st = {"obj": [{"n": n, "k": k, "i": item(k, kvpy.fields(o))} for n, (k, o) in self.obj.items()], "pop": [], "prj": []}
        for n, p in self.pop.items():
            r = kvpy.pop(p)
            st["pop"].append(dict(self.dump_pop(r), n=n, same=self.see_pop(p, r)))
        for n, p in self.prj.items():
            r = kvpy.proj(p)
            st["prj"].append(dict(self.dump_prj(r), n=n, same=self.see_prj(p, r)))
        st["net"] = [self.dump_net(n) for n in list(self.net) + list(self.model)]
        return st

    # --- calls
    def gen(self, kind, items):
        self.calls = []
        again = kvpy.params(kind, 1)

        def give(i):
            self.calls.append(i)
            x = items[i]
            if x["g"] == "none":
                return None
            if x["g"] == "raise":
                raise ValueError("generator")
            if x["g"] == "type":
                return [5, "no", kvpy.params("delta" if kind in POP else "blifat", 1), object()][x["v"]]
            if x["g"] == "tag" and i % 3:           # the same object every time, changed in between
                kvpy.retag(again, x["v"])
                p = again
            else:
                p = kvpy.params(kind, x["v"]) if x["g"] == "tag" else self.obj[x["o"]][1]
            if kind in PRJ:
                return (p, x["s"], x["d"])
            return p
        return give

    def unnamed(self, name, x):
        """An object with an identifier of its own choosing."""
        kvpy.called(name, x.uid)
        return x

    def do(self, op, a, ev):
        if op == "mk":
            o = kvpy.params(a["k"], a["v"])
            self.obj[a["o"]] = (a["k"], o)
            ev.update(py=attributes(o), cc=held(o))
        elif op == "dflt":
            ev.update(py=held(PAR[a["k"]]()), cc=held(kvpy.params(a["k"], "{}")))
        elif op == "synth":
            w, d, ty = a["w"], a["d"], a["ty"]
            ev.update(w=val(w), d=val(d), ty=val(ty))
            o = S.DeltaSynapseParameters(w, d, S.OutputType.values[ty])
            ev.update(py=attributes(o), cc=held(o))
        elif op == "set":
            k, o = self.obj[a["o"]]
            v = a["v"]
            ev.update(v=val(v), made=made(k, o, a["f"], v))
            try:
                if a["f"] == "isi_status":
                    v = N.ISIPeriodType.values[v]
                setattr(o, a["f"], v)
            finally:
                ev.update(py=attributes(o), cc=held(o))
        elif op == "mkpop":
            args = (self.gen(a["k"], a["list"]), len(a["list"]))
            try:
                if a["how"] == "uid":
                    self.pop[a["p"]] = POP[a["k"]](kvpy.uid(a["u"]), *args)
                else:
                    self.pop[a["p"]] = self.unnamed(a["u"], POP[a["k"]](*args))
            finally:
                ev["calls"] = self.calls
        elif op == "nocall":
            if a["what"] == "pop":
                POP[a["k"]](kvpy.uid("w"), 5, 3)
            elif a["what"] == "prj":
                PRJ[a["k"]](kvpy.uid("a"), kvpy.uid("b"), "gen", 3)
            elif a["what"] == "add":
                self.pop[a["p"]].add_neurons(5, 3)
            else:
                self.prj[a["p"]].add_synapses(5, 3)
        elif op == "add":
            try:
                self.pop[a["p"]].add_neurons(self.gen(a["k"], a["list"]), len(a["list"]))
            finally:
                ev["calls"] = self.calls
        elif op == "rm":
            self.pop[a["p"]].remove_neuron(a["i"])
        elif op == "rmmany":
            self.pop[a["p"]].remove_neurons(tuple(a["is"]) if a["i"] else a["is"])
        elif op == "setat":
            v = a["v"]
            ev.update(v=val(v), made=made("srblifat", self.pop[a["p"]][a["i"]], a["f"], v))
            setattr(self.pop[a["p"]][a["i"]], a["f"], v)
        elif op == "get":
            x = self.pop[a["p"]][a["i"]]
            ev.update(it=item(a["k"], kvpy.fields(x)), py=attributes(x), cc=held(x))
        elif op == "getj":
            x = self.prj[a["j"]][a["i"]]
            ev.update(it=[x[1], x[2], item(a["k"], kvpy.fields(x[0]))], py=attributes(x[0]), cc=held(x[0]))
        elif op == "mkprj":
            cls, pre, post = PRJ[a["k"]], kvpy.uid(a["pre"]), kvpy.uid(a["post"])
            args = (self.gen(a["k"], a["list"]), len(a["list"]))
            try:
                if a["how"] == "uid":
                    self.prj[a["j"]] = cls(kvpy.uid(a["u"]), pre, post, *args)
                elif a["how"] == "anon":
                    self.prj[a["j"]] = self.unnamed(a["u"], cls(pre, post, *args))
                elif a["how"] == "empty":
                    self.prj[a["j"]] = cls(kvpy.uid(a["u"]), pre, post)
                else:
                    self.prj[a["j"]] = self.unnamed(a["u"], cls(pre, post))
            finally:
                ev["calls"] = self.calls
        elif op == "addsyn":
            try:
                self.prj[a["j"]].add_synapses(self.gen(a["k"], a["list"]), len(a["list"]))
            finally:
                ev["calls"] = self.calls
        elif op == "mknet":
            self.net[a["n"]] = F.Network(kvpy.uid(a["n"])) if a["how"] == "uid" else F.Network()
        elif op == "npop":
            self.network(a["n"]).add_population(self.pop[a["p"]])
        elif op == "nprj":
            self.network(a["n"]).add_projection(self.prj[a["j"]])
        elif op == "nrmpop":
            self.network(a["n"]).remove_population(kvpy.uid(a["u"]))
        elif op == "nrmprj":
            self.network(a["n"]).remove_projection(kvpy.uid(a["u"]))
        elif op == "ngetpop":
            self.pop[a["p"]] = self.network(a["n"]).get_population(kvpy.uid(a["u"]))
        elif op == "ngetprj":
            self.prj[a["j"]] = self.network(a["n"]).get_projection(kvpy.uid(a["u"]))
        elif op == "model":
            self.model[a["m"]] = F.Model(self.net.pop(a["n"]))
        elif op == "setnet":
            self.model[a["m"]].network = self.net.pop(a["n"])
        elif op == "detach":
            self.net[a["n"]] = self.model[a["m"]].network
            del self.model[a["m"]]
            gc.collect()
        elif op == "inch":
            self.model[a["m"]].add_input_channel(kvpy.uid(a["ch"]), kvpy.uid(a["u"]))
        elif op == "outch":
            self.model[a["m"]].add_output_channel(kvpy.uid(a["ch"]), kvpy.uid(a["u"]))
        elif op == "drop":
            for d in (self.obj, self.pop, self.prj, self.net, self.model):
                d.pop(a["x"], None)
            gc.collect()
        elif op == "uids":
            mk = lambda n: kvpy.uid(n) if n else C.UID(False)
            ev["cmp"] = []
            for x in a["names"]:
                for y in a["names"]:
                    u, v = mk(x), mk(y)
                    if hash(x + y) % 2:
                        u = C.UID(u)
                    ev["cmp"].append({"a": x, "b": y, "eq": u == v, "ne": u != v, "lt": int(u < v), "gt": int(v < u),
                                      "hash": hash(u) == hash(v), "str": str(u) == str(v), "valid": bool(u)})
        else:
            raise SystemExit("unknown operation " + op)


def main():
    out = open(sys.argv[2], "w")
    ep = None
    for line in open(sys.argv[1]):
        op, _, rest = line.rstrip("\n").partition(" ")
        if op == "new":
            ep = None
            gc.collect()
            ep = Episode(int(rest))
            ev = {"op": "new"}
        else:
            a = json.loads(rest)
            ev = dict(a, op=op, res="ok")
            try:
                ep.do(op, a, ev)
            except Exception as e:
                ev["res"] = type(e).__name__
        ev["st"] = ep.state()
        out.write(json.dumps(ev, separators=(",", ":")) + "\n")
        out.flush()
    ep = None
    out.close()


main()
