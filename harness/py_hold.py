"""What a backend used by a Python program holds and runs; script and events as those of hold_driver.cpp."""
import gc
import json
import os
import sys

import knp.core._knp_python_framework_core as C
import knp.neuron_traits._knp_python_framework_neuron_traits
import knp.synapse_traits._knp_python_framework_synapse_traits
import kvpy

LIBS = os.environ["PYTHONPATH"]
POP = {"B": (C.BLIFATNeuronPopulation, "blifat"), "SB": (C.SynapticResourceSTDPBLIFATNeuronPopulation, "srblifat"), "A": (C.AltAILIFPopulation, "altai")}
PRJ = {"D": (C.DeltaSynapseProjection, "delta"), "SD": (C.SynapticResourceSTDPDeltaSynapseProjection, "sr"), "AD": (C.AdditiveSTDPDeltaSynapseProjection, None)}


def u(n):
    return kvpy.uid(n)


def pop(f):
    def neuron(i):
        return kvpy.params(POP[f[1]][1], json.dumps({"activation_threshold": 0 if f[1] == "A" else -100000}))
    return POP[f[1]][0](u(f[0]), neuron, int(f[2]))


def proj(f):
    def synapse(i):
        if f[1] == "AD": return None        # there is no class for its parameters
        return (kvpy.params(PRJ[f[1]][1], json.dumps({"weight": 0, "delay": int(f[5])})), i, i)
    return PRJ[f[1]][0](u(f[0]), u(f[2]), u(f[3]), synapse, int(f[4]))


def main():
    out = open(sys.argv[2], "w")
    loader = C.BackendLoader()
    be = end = None
    for line in open(sys.argv[1]):
        w = line.split()
        ev = {"op": w[0]}
        if w[0] == "new":
            be = end = None
            gc.collect()
            kvpy.reset(int(w[2]))
            be = loader.load(os.path.join(LIBS, w[1] + ".so"))
            ps, js = [u(x) for x in w[3:] if x[0] == "P"], [u(x) for x in w[3:] if x[0] == "J"]
            if int(w[2]) % 2:       # the backend's own endpoint
                end = be.message_endpoint
                be.subscribe(C.SpikeMessage, u("obs"), ps)
                be.subscribe(C.SynapticImpactMessage, u("obs"), js)
            else:
                end = be.message_bus.create_endpoint()
                end.subscribe(C.SpikeMessage, u("obs"), ps)
                end.subscribe(C.SynapticImpactMessage, u("obs"), js)
            ev["be"] = w[1]
        elif w[0] in ("pops", "projs"):
            fs = [x.split(":") for x in w[1:]]
            v = [(pop if w[0] == "pops" else proj)(f) for f in fs]
            if w[0] == "pops": ev["asked"] = [[f[0], f[1], int(f[2]), kvpy.pop(x)["kind"]] for f, x in zip(fs, v)]
            else: ev["asked"] = [f[:4] + [len(x), int(f[5]), True, kvpy.proj(x)["kind"]] for f, x in zip(fs, v)]
            ev["res"] = "ok"
            try:
                be.load_all_populations(v) if w[0] == "pops" else be.load_all_projections(v)
            except RuntimeError:
                ev["res"] = "fail"
            be._uninit()
            del v
            gc.collect()
        elif w[0] in ("rmpops", "rmprojs"):
            us = [u(x) for x in w[1:]]
            be.remove_populations(us) if w[0] == "rmpops" else be.remove_projections(us)
            ev["us"] = w[1:]
        elif w[0] == "learn":
            be.stop_learning() if w[1] == "stop" else be.start_learning()
            ev["on"] = w[1] != "stop"
        elif w[0] == "run":
            ev["seen"] = []
            for k in range(int(w[1])):
                first = be.get_step()
                be.start(lambda t: t == first)
                end.receive_all_messages()
                s = [[kvpy.name(m.header.sender_uid), len(m.neuron_indexes)] for m in end.unload_messages(C.SpikeMessage, u("obs"))]
                i = [[kvpy.name(m.header.sender_uid), kvpy.name(m.presynaptic_population_uid), kvpy.name(m.postsynaptic_population_uid), len(m.impacts)]
                     for m in end.unload_messages(C.SynapticImpactMessage, u("obs"))]
                ev["seen"].append({"s": s, "i": i})
        ev.update(json.loads(kvpy.held(be)), step=be.get_step())
        out.write(json.dumps(ev, separators=(",", ":")) + "\n")
        out.flush()
    be = end = None
    gc.collect()
    out.close()


main()
