"""Runs of a backend by a Python program with scripted conditions; script and events as those of backend_driver.cpp."""
import collections
import gc
import json
import os
import sys
import threading

import knp.core._knp_python_framework_core as C
import kvpy

LIBS = os.environ["PYTHONPATH"]


class Scripted(Exception):
    pass


def main():
    out = open(sys.argv[2], "w")
    loader = C.BackendLoader()
    be = None
    for line in open(sys.argv[1]):
        w = line.split()
        ev = {"op": w[0], "sel": []}
        if w[0] == "new":
            be = None
            gc.collect()
            kvpy.reset(int(w[3]))
            be = loader.load(os.path.join(LIBS, ("mt" if "mt" in w[1] else "st") + ".so"))
        elif w[0] == "start":
            queue = {"pre": collections.deque(), "post": collections.deque()}
            for x in w[2:]:
                k, _, v = x.partition("=")
                if k in queue:
                    queue[k].extend(v.split(","))
            calls = []

            def act(k, s):
                d = queue[k].popleft() if queue[k] else "-ok"
                r, d = d[0] == "+", d[1:]
                calls.append({"k": k if s == be.get_step() else "wrong step", "d": d, "r": r, "step": be.get_step(), "running": bool(be.running)})
                if d == "stop": be.stop()
                if d == "xstop":
                    t = threading.Thread(target=be.stop)
                    t.start()
                    t.join()
                if d == "uninit": be._uninit()
                if d == "throw": raise Scripted()
                return (r, 1000 + s if r else 0, [None, 2 ** 40][r])[len(calls) % 3]

            ev.update(pre=True, post=w[1] == "two", calls=calls, res="ok")
            try:
                pre, post = lambda s: act("pre", s), lambda s: act("post", s)
                be.start(pre, post) if w[1] == "two" else be.start(pre)
            except Scripted:
                ev["res"] = "throw"
        elif w[0] == "stop":
            be.stop()
        elif w[0] == "uninit":
            be._uninit()
        elif w[0] == "rawstep":
            be._step()
        elif w[0] == "select":
            want = [] if w[1] == "-" else w[1].split(",")
            ev.update(want=want, avail=[], res="ok")
            try:
                be.select_devices({kvpy.uid(x) for x in want})
            except RuntimeError:
                ev["res"] = "fail"
        ev.update(step=be.get_step(), running=bool(be.running))
        out.write(json.dumps(ev, separators=(",", ":")) + "\n")
        out.flush()
    be = None
    gc.collect()
    out.close()


main()
