"""Replays message-bus scripts through the Python package; script and events as those of bus_driver.cpp.

    bad <endpoint> <n>      a call with an argument that is not of the kind it takes"""
import gc
import json
import sys

import knp.core._knp_python_framework_core as C
import knp.synapse_traits._knp_python_framework_synapse_traits as S
import kvpy

TYPES = {"S": C.SpikeMessage, "I": C.SynapticImpactMessage}
U, NAME = kvpy.bus_uid, kvpy.bus_name


FAR = 2 ** 40


def time(mid):
    """The time of a message: every third is beyond 32 bits."""
    return mid + (FAR if mid % 3 == 0 else 0)


def number(t):
    return t % FAR if time(t % FAR) == t else -1


def names(x):
    return [] if x in ("", "-") else x.split(",")


def make(ty, snd, mid, body):
    if ty == "S":
        idx = [int(x) for x in body.split(".") if x not in ("", "-")]
        if mid % 2:
            return C.SpikeMessage((U(snd), time(mid)), idx)
        m = C.SpikeMessage()
        m.header.sender_uid = U(snd)
        m.header.send_time = time(mid)
        if mid % 4:
            for i in idx:
                m.neuron_indexes.append(i)
        else:
            d = C.SpikeData()
            d.extend(idx)
            m.neuron_indexes = d
        return m
    p = body.split("/")
    m = C.SynapticImpactMessage()
    h = C.MessageHeader()
    h.send_time, h.sender_uid = time(mid), U(snd)
    m.header = h
    m.presynaptic_population_uid, m.postsynaptic_population_uid, m.is_forcing = U(p[0]), U(p[1]), p[2] == "f"
    for x in p[3:]:
        f = x.split(":")
        i = C.SynapticImpact()
        i.connection_index, i.impact_value, i.synapse_type = int(f[0]), float(f[1]), S.OutputType.values[int(f[2])]
        i.presynaptic_neuron_index, i.postsynaptic_neuron_index = int(f[3]), int(f[4])
        m.impacts.append(i)
    return m


def show(m):
    if isinstance(m, C.SpikeMessage):
        b = "".join("%d." % i for i in m.neuron_indexes)
    else:
        b = "/".join([NAME(m.presynaptic_population_uid), NAME(m.postsynaptic_population_uid), "f" if m.is_forcing else "n"] +
                     ["%d:%s:%d:%d:%d" % (i.connection_index, "%g" % i.impact_value, int(i.synapse_type), i.presynaptic_neuron_index, i.postsynaptic_neuron_index)
                      for i in m.impacts])
    return {"id": number(m.header.send_time), "snd": NAME(m.header.sender_uid), "b": b}


def main():
    out = open(sys.argv[2], "w")
    eps, bus = {}, None
    for line in open(sys.argv[1]):
        w = line.split()
        op = w[0]
        ev = {"op": op}
        if op == "new":
            eps, bus = {}, None
            gc.collect()
            kvpy.bus_new(w[1], int(w[2]))
            bus = kvpy.bus_get()
            ev["kind"] = w[1]
        else:
            ev["e"] = w[1] if len(w) > 1 else ""
            e = eps.get(ev["e"])
        if op == "ep":
            eps[w[1]] = bus.create_endpoint()
        elif op == "del":
            e = None
            del eps[w[1]]
            gc.collect()
        elif op == "sub":
            e.subscribe(TYPES[w[2]], U(w[3]), [U(x) for x in names(w[4])])
            ev.update(ty=w[2], rcv=w[3], snd=names(w[4]), n=0)
        elif op == "unsub":
            ev.update(ty=w[2], rcv=w[3], res=e.unsubscribe(TYPES[w[2]], U(w[3])))
        elif op == "rmrcv":
            e.remove_receiver(U(w[2]))
            ev.update(rcv=w[2])
        elif op == "send":
            e.send_message(make(w[2], w[3], int(w[4]), w[5]))
            ev.update(ty=w[2], snd=w[3], id=int(w[4]), b="" if w[5] == "-" else w[5], sz=1)
        elif op == "route":
            del ev["e"]
            ev["n"] = bus.route_messages()
        elif op == "recv":
            ev["n"] = e.receive_all_messages()
        elif op == "unload":
            ev.update(ty=w[2], rcv=w[3], msgs=[show(m) for m in e.unload_messages(TYPES[w[2]], U(w[3]))])
        elif op == "bad":
            try:
                n = int(w[2])
                if n == 0: e.subscribe(C.SpikeData, U("r0"), [U("s0")])
                if n == 1: e.subscribe(C.SpikeMessage, U("r0"), [U("s0"), "s1"])
                if n == 2: e.subscribe(C.SpikeMessage, "r0", [U("s0")])
                if n == 3: e.send_message(5)
                if n == 4: e.unload_messages(C.UID, U("r0"))
                if n == 5: C.SpikeMessage((U("s0"), 1), [1, -1])
                if n == 6: C.SpikeMessage(("s0", 1), [1])
                ev["err"] = ""
            except Exception as x:
                ev["err"] = type(x).__name__
        ev["st"] = [json.loads(kvpy.bus_endpoint(n, e)) for n, e in eps.items()]
        e = None
        out.write(json.dumps(ev, separators=(",", ":")) + "\n")
        out.flush()
    eps, bus = {}, None
    out.close()


main()
