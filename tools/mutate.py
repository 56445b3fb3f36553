#!/usr/bin/env python3
"""mutate.py <worker> <number of workers> <mutants per file> <seed> <log>: small syntactic changes of KNP against the checks.

Works in /tmp/mut/w<worker> on copies of /repo and /verif. A mutant that does not compile is dropped; one that every
check responsible for its file passes is reported as SURVIVED (to be looked at: equivalent, or a gap)."""
import os, random, re, subprocess, sys
W, NW, PER, SEED, LOG = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
ONLY = sys.argv[6] if len(sys.argv) > 6 else ""
D = "/tmp/mut/w%d" % W
CL, BF, CPU = "knp/core-library/", "knp/base-framework/", "knp/backends/cpu/"
LI = CPU + "cpu-library/include/knp/backends/cpu-library/"
FI = BF + "include/knp/framework/"
TABLE = [
    (CL + "impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp", "B01"), (CL + "impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h", "B01"),
    (CL + "impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp", "B01"), (CL + "impl/message_bus_zmq_impl/message_endpoint_zmq_impl.cpp", "B01"),
    (CL + "impl/message_bus.cpp", "B01"), (CL + "impl/message_endpoint.cpp", "B01 B02"), (CL + "include/knp/core/subscription.h", "B02 B01"),
    (CL + "impl/messaging/spike_message.cpp", "B03"), (CL + "impl/messaging/synaptic_impact_message.cpp", "B03"), (CL + "impl/messaging/message_envelope.cpp", "B03"),
    (CL + "include/knp/core/messaging/synaptic_impact_message.h", "B03"), (CL + "include/knp/core/messaging/spike_message.h", "B03"),
    (CL + "include/knp/core/messaging/message_header.h", "B03"),
    (CL + "impl/projection.cpp", "C01"), (CL + "include/knp/core/projection.h", "C01"), (CL + "include/knp/core/population.h", "C02"),
    (CL + "impl/backend.cpp", "E01"), (BF + "impl/network.cpp", "C03"), (BF + "impl/model.cpp", "C03 X02"), (FI + "network.h", "C03"),
    (LI + "impl/populations/blifat/blifat_impl.h", "E03"), (LI + "impl/populations/blifat/blifat_stdp.h", "L01 E03"), (LI + "impl/populations/blifat/blifat_dispatcher.h", "E03 E02 L01"),
    (LI + "impl/populations/altai/altai_impl.h", "E04"), (LI + "impl/populations/altai/altai_stdp.h", "L01 E04"), (LI + "impl/populations/altai/altai_dispatcher.h", "E04 L01"),
    (LI + "impl/populations/lif/lif_impl.h", "E04"), (LI + "impl/populations/lif/lif_dispatcher.h", "E04 E02"), (LI + "impl/populations/training/stdp.h", "L01"),
    (LI + "impl/projections/delta/delta_impl.h", "E02 E05"), (LI + "impl/projections/delta/delta_dispatcher.h", "E02 E05"), (LI + "impl/projections/training/stdp/additive_stdp.h", "L02"),
    (LI + "populations.h", "E02 E03 E05"), (LI + "projections.h", "E02 E05"), (LI + "init.h", "E02 L02 X02"),
    (CPU + "cpu-single-threaded-backend/impl/backend.cpp", "E06 E02 X02"), (CPU + "cpu-single-threaded-backend/impl/get_network.cpp", "X02"),
    (CPU + "cpu-multi-threaded-backend/impl/backend.cpp", "E06 E05 X02"), (CPU + "cpu-multi-threaded-backend/impl/get_network.cpp", "X02"),
    (CPU + "thread_pool/impl/thread_pool_context.cpp", "T01"), (CPU + "thread_pool/include/knp/backends/thread_pool/thread_pool.h", "T01"),
    (CPU + "thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h", "T01"), (CPU + "thread_pool/include/knp/backends/thread_pool/thread_pool_context.h", "T01"),
    (BF + "impl/model_executor.cpp", "X01 X02"), (BF + "impl/model_loader.cpp", "X02"), (BF + "impl/message_handlers.cpp", "X03"), (FI + "message_handlers.h", "X03 X01"),
    (FI + "io/output_channel.h", "X01"), (FI + "io/input_channel.h", "X01"), (FI + "monitoring/observer.h", "X01 N04"), (FI + "model_executor.h", "X01"),
    (FI + "io/out_converters/convert_set.h", "X04"), (FI + "io/in_converters/sequence_converter.h", "X04"), (BF + "impl/input_converter.cpp", "X04"),
    (FI + "projection/creators.h", "N01"), (FI + "projection/synapse_generators.h", "N01"), (FI + "projection/connectors.h", "N01"), (FI + "projection/synapse_parameters_generators.h", "N01"),
    (FI + "population/creators.h", "N01"), (FI + "population/neuron_parameters_generators.h", "N01"),
    (BF + "impl/network_validation/executor.cpp", "N02"), (BF + "impl/network_validation/validators/connectivity.cpp", "N02"),
    (BF + "impl/data_processing/classification/image.cpp", "N03"), (FI + "data_processing/classification/image.h", "N03"), (FI + "data_processing/classification/dataset.h", "N03"),
    (BF + "impl/data_processing/classification/dataset.cpp", "N03"),
    (BF + "impl/inference_evaluation/classification/processor.cpp", "N03"), (FI + "inference_evaluation/perfomance_metrics.h", "N03"),
    (BF + "impl/monitoring/model.cpp", "N04"), (FI + "normalization/normalizers.h", "N04"), (FI + "normalization/synapse_normalizer.h", "N04"), (FI + "normalization/neuron_normalizer.h", "N04"),
    (FI + "normalization/neuron_accessors.h", "N04"),
    ("knp/meta-library/include/knp/meta/variant_helpers.h", "E06 E02 X02"), ("knp/meta-library/include/knp/meta/stringify.h", "E06"),
    (CL + "include/knp/core/uid.h", "C04"), (CL + "impl/uid.cpp", "C04"), (CL + "include/knp/core/tag.h", "C04"), (CL + "include/knp/core/core.h", "C04"),
    (CL + "impl/device.cpp", "E01"), (CL + "include/knp/core/device.h", "E01"), (CPU + "cpu-devices/impl/x86_cpu.cpp", "E01"), (CPU + "cpu-devices/impl/unknown_cpu.cpp", "E01"),
    (BF + "impl/backend_loader.cpp", "X05"), (BF + "impl/synchronization.cpp", "X02"),
]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+\+", "--"), (r"--", "++"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"\bif \(", "if (!"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"(?<![\w.])0(?![\w.x])", "1"), (r"(?<![\w.])1(?![\w.])", "2"),
       (r"(?<![\w.])1(?![\w.])", "0"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bbegin\(\)", "end()"), (r"\.front\(\)", ".back()"),
       (r" = ", " += "), (r"emplace_back", "SKIP")]


def mutants(path):
    lines = open("/repo/" + path).read().split("\n")
    out, comment = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if comment:
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "SPDLOG", "assert", "template", "using", "static_assert", "KNP_", "throw", "namespace", "*")) or "SPDLOG" in s:
            continue
        for a, b in OPS:
            if b == "SKIP":
                continue
            for m in re.finditer(a, l):
                if l[:m.start()].count('"') % 2 or "//" in l[:m.start()] or "template" in l or " = default" in l or " = delete" in l:
                    continue
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                if a == r"\bif \(":
                    depth, j = 0, m.end() - 1
                    for j in range(m.end() - 1, len(l)):
                        depth += l[j] == "("
                        depth -= l[j] == ")"
                        if depth == 0: break
                    if depth: continue
                    new = l[:m.start()] + "if (!(" + l[m.end():j] + "))" + l[j + 1:]
                out.append((i, l, new))
        if s.endswith(";") and not s.startswith(("return", "}", "const ", "auto ", "break", "continue", "private", "public")) and "(" in s or re.match(r"^[\w.\[\]>()-]+ [-+*/]?= .*;$", s):
            if s.count("(") == s.count(")") and not re.match(r"^(std::|knp::|core::)?[\w:<>, ]+ [\w]+( = .*|\{.*\}|\(.*\))?;$", s) or re.match(r"^[\w.\[\]>()-]+ [-+*/]?= .*;$", s):
                out.append((i, l, l[:len(l) - len(l.lstrip())] + ";"))
    return lines, out


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    if not os.path.exists(D):
        os.makedirs(D)
        sh("git clone -q /repo %s/repo; mkdir %s/verif; cp -r /verif/lib /verif/checks /verif/specs /verif/harness /verif/check /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json %s/verif/" % (D, D, D))
    else:
        sh("cp -r /verif/lib /verif/checks /verif/specs /verif/harness /verif/check /verif/known_findings.txt %s/verif/; git -C %s/repo checkout -q -- . ; git -C %s/repo pull -q" % (D, D, D))
    # stop at the first violation
    p = D + "/verif/lib/kvlib.py"
    s = open(p).read()
    s = s.replace("    def violation(self, ", "    def violation(self, *a, **k):\n        print('VIOLATION', flush=True)\n        os._exit(1)\n\n    def violation_(self, ", 1)
    open(p, "w").write(s)
    log = open(LOG, "a")
    for n, (path, checks) in enumerate(TABLE):
        if n % NW != W or ONLY and ONLY not in path:
            continue
        if not os.path.exists("/repo/" + path):
            print("no", path); continue
        lines, ms = mutants(path)
        rng = random.Random(SEED * 1000 + n)
        rng.shuffle(ms)
        done = 0
        for i, old, new in ms:
            if done >= PER:
                break
            f = D + "/repo/" + path
            out = list(lines)
            out[i] = new
            open(f, "w").write("\n".join(out))
            res = []
            for c in checks.split():
                try:
                    r = subprocess.run(["./check", c], cwd=D + "/verif", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600,
                                       env=dict(os.environ, KNP_REPO=D + "/repo"))
                    code = r.returncode
                except subprocess.TimeoutExpired:
                    code = "T"
                res.append("%s=%s" % (c, code))
                if code == 2 and "compilation of" in r.stderr:
                    res = None
                    break
                if code != 0:
                    break
            sh("git -C %s/repo checkout -q -- ." % D)
            sh("pkill -f %s/verif/.cache/bin" % D)
            if res is None:
                continue
            done += 1
            code = res[-1].split("=")[1]
            log.write("%s %s:%d %s\n    - %s\n    + %s\n" % ({"1": "KILLED", "0": "SURVIVED"}.get(code, "ODD"), path, i + 1, " ".join(res), old.strip(), new.strip()))
            log.flush()


main()
