"""Runs models with the Python package; script and events as those of model_driver.cpp.

    new <driver json>\t<specification json>     build the model, load it
    run <n> [p:@<k> | o:<observer>@<k>] [raise] [free]   run up to n steps; stop (or raise an exception) at the k-th of them
    read <channel> <a> <b> / update <channel> / copy / lock / unlock
    leave                                       let go of everything but the output channels, the endpoint and the network
"""
import gc
import json
import os
import sys

import knp.base_framework._knp_python_framework_base_framework as F
import knp.core._knp_python_framework_core as C
import knp.neuron_traits._knp_python_framework_neuron_traits as N
import knp.synapse_traits._knp_python_framework_synapse_traits as S
import kvpy

POP = {"blifat": C.BLIFATNeuronPopulation, "srblifat": C.SynapticResourceSTDPBLIFATNeuronPopulation, "altai": C.AltAILIFPopulation}
PRJ = {"delta": C.DeltaSynapseProjection, "sr": C.SynapticResourceSTDPDeltaSynapseProjection}
LIBS = os.environ["PYTHONPATH"]
dumps = lambda x: json.dumps(x, separators=(",", ":"))


def u(n):
    return kvpy.uid(n)


def rec():
    return {"asked": {}, "seen": {}, "bus": [], "im": []}


def spike(m):
    t = m.header.send_time
    return [kvpy.name(m.header.sender_uid), t if t < 10 ** 9 else 999999999, list(m.neuron_indexes)]


def impacts(m):
    r = []
    for i in m.impacts:
        r.append([kvpy.name(m.header.sender_uid), i.connection_index, int(kvpy.num(i.impact_value, True)), int(kvpy.num(i.impact_value, False)),
                  int(i.synapse_type), i.presynaptic_neuron_index, i.postsynaptic_neuron_index, bool(m.is_forcing),
                  kvpy.name(m.presynaptic_population_uid), kvpy.name(m.postsynaptic_population_uid)])
    return r


class Run:
    def __init__(self, d):
        kvpy.reset(d["salt"])
        self.recs, self.cur = {}, None
        loader = C.BackendLoader()
        self.be = loader.load(os.path.join(LIBS, "mt.so" if d["mt"] else "st.so"))
        del loader
        self.pops, self.projs = [], []
        net = F.Network()
        pops, projs = self.parts(d)
        if d.get("pre"):
            self.be.load_all_populations(pops if d["pre"] == 1 else pops[:1])
            self.be.load_all_projections(projs if d["pre"] == 1 else projs[:len(projs) // 2])
        for p in pops:
            net.add_population(p)
        for p in projs:
            net.add_projection(p)
        del pops, projs
        self.model = F.Model(net)
        del net
        self.inch, self.outch = [], []
        for c, j in d["inch"]:
            self.model.add_input_channel(u(c), u(j))
            if c not in self.inch:
                self.inch.append(c)
        for c, p in d["outch"]:
            self.model.add_output_channel(u(c), u(p))
            if c not in self.outch:
                self.outch.append(c)
        self.net = self.model.network
        self.ex = F.ModelExecutor(self.model, self.be, {u(c): self.channel(c, data) for c, data in d["gens"].items()})
        self.obs = [o["id"] for o in d["obs"]]
        for i, o in enumerate(d["obs"]):
            (self.ex.add_impact_observer if o["kind"] else self.ex.add_spike_observer)(
                self.observer(o["id"], impacts if o["kind"] else lambda m: [spike(m)], i == 0), [u(x) for x in o["from"]])
        self.chan = {}
        self.end = self.be.message_bus.create_endpoint()
        self.end.subscribe(C.SpikeMessage, u("observer!"), [u(x) for x in self.pops + self.inch])
        if self.projs:
            self.end.subscribe(C.SynapticImpactMessage, u("observer!"), [u(x) for x in self.projs])
        gc.collect()

    def parts(self, d):
        pops, projs = [], []
        for p in d["pops"]:
            self.pops.append(p["id"])
            ns = p["n"]
            pops.append(POP[p["kind"]](u(p["id"]), lambda i: kvpy.params(p["kind"], dumps(ns[i])), len(ns)))
        for p in d["projs"]:
            self.projs.append(p["id"])
            syn = p["syn"]
            projs.append(PRJ[p["kind"]](u(p["id"]), u(p["pre"]), u(p["post"]),
                                        lambda i: (kvpy.params(p["kind"], dumps(syn[i])), syn[i]["s"], syn[i]["d"]), len(syn)))
        return pops, projs

    def channel(self, c, data):
        def give(t):
            r = self.recs.setdefault(t, rec())
            r["asked"][c] = r["asked"].get(c, 0) + 1
            return data[t % len(data)] if data else []
        return give

    def stop(self, who):
        if who == self.who and self.cur == self.at:
            if self.raises:
                raise ValueError("stop")
            self.ex.stop()

    def collect(self):
        self.end.receive_all_messages()
        for m in self.end.unload_messages(C.SynapticImpactMessage, u("observer!")):
            self.recs.setdefault(self.cur, rec())["im"] += impacts(m)

    def observer(self, name, show, first):
        def see(ms):
            if self.free:       # without a condition of the program's own, the first observer of the step sees that it began
                if first:
                    self.cur = self.be.get_step() - 1
                    self.collect()
                if self.cur > self.first + 60:
                    raise SystemExit("the run does not stop")
            r = self.recs.setdefault(self.cur, rec())
            for m in ms:
                r["seen"].setdefault(name, []).extend(show(m))
            self.stop("o:" + name)
        return see

    def run(self, a):
        be = self.ex.get_backend()
        n = int(a[0])
        self.first = be.get_step()
        self.who, self.at, self.raises, self.free, self.recs, self.cur = None, 0, "raise" in a, "free" in a, {}, None
        if len(a) > 1:
            self.who, _, k = a[1].partition("@")
            self.at = self.first + int(k) - 1

        def condition(s):
            self.collect()
            self.cur = s
            self.stop("p:")
            return s < self.first + n if n % 2 else max(self.first + n - s, 0) * 1000
        err = ""
        try:
            self.ex.start() if self.free else self.ex.start(condition)
        except Exception as e:
            err = type(e).__name__
        to = be.get_step()
        if to > self.first:
            self.cur = to - 1
        self.collect()
        for m in self.end.unload_messages(C.SpikeMessage, u("observer!")):
            x = spike(m)
            self.recs.setdefault(x[1], rec())["bus"].append(x)
        steps = []
        for t in sorted(set(self.recs) | set(range(self.first, to)), key=lambda t: -1 if t is None else t):
            r = self.recs.get(t, rec())
            if r["bus"] or r["im"] or r["seen"] or any(r["asked"].values()) or (t is not None and self.first <= t < to):
                steps.append({"t": 999999 if t is None else t, "ask": [r["asked"].get(c, 0) for c in self.inch], "bus": r["bus"], "im": r["im"],
                              "h": [], "o": [r["seen"].get(o, []) for o in self.obs], "log": [], "tok": [], "rows": []})
        return {"ev": "run", "from": self.first, "to": to, "n": n, "stop": "none" if not self.who else "p" if self.who == "p:" else "in",
                "k": self.at - self.first + 1 if self.who else 0, "running": bool(be.running), "steps": steps, "raises": self.raises, "err": err}

    def output(self, c):
        return self.chan[c] if c in self.chan else self.ex.get_output_channel(u(c))

    def leave(self):
        self.chan = {c: self.output(c) for c in self.outch}
        self.ex = self.be = self.model = None
        gc.collect()
        # the endpoint and the network are still there
        self.end.receive_all_messages()
        left = len(self.end.unload_messages(C.SpikeMessage, u("observer!")))
        ps, js = kvpy.network(self.net)
        return {"ev": "leave", "left": left, "pops": [p["uid"] for p in ps], "projs": [j["uid"] for j in js]}

    def state(self):
        return ("{%s,%s}" % (kvpy.state(self.be), kvpy.copy(self.be, self.net)))


def main():
    out = open(sys.argv[2], "w")
    run = None
    for line in open(sys.argv[1]):
        op, _, rest = line.rstrip("\n").partition(" ")
        a = rest.split()
        try:
            if op == "new":
                drv, spec = rest.split("\t")
                run = None
                gc.collect()
                try:
                    run = Run(json.loads(drv))
                    ev = dict(json.loads(run.state()), ev="reset", log=[], m=json.loads(spec))
                except RuntimeError as e:
                    ev = {"ev": "refused", "m": json.loads(spec)}
            elif op == "run":
                ev = run.run(a)
            elif op == "copy":
                ev = dict(json.loads(run.state()), ev="copy")
            elif op == "lock":
                run.ex.stop_learning()
                ev = {"ev": op}
            elif op == "unlock":
                run.ex.start_learning()
                ev = {"ev": op}
            elif op == "update":
                ev = {"ev": op, "ch": a[0], "r": [spike(m) for m in run.output(a[0]).update()]}
            elif op == "read":
                ev = {"ev": op, "ch": a[0], "a": int(a[1]), "b": int(a[2]),
                      "r": [spike(m) for m in run.output(a[0]).read_some_from_buffer(int(a[1]), int(a[2]))]}
            elif op == "leave":
                ev = run.leave()
        except Exception as e:
            ev = {"ev": "exception", "what": "%s: %s" % (type(e).__name__, e)}
        out.write(dumps(ev) + "\n")
        out.flush()
    run = None
    gc.collect()
    out.close()


main()
