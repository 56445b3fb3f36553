#!/usr/bin/env python3
"""mkseed.py <id> [check ids...]: confirm a seeded change in the scratch copy /tmp/seedwt/repo (build, tests, demo) and
write /verif/seeded/<id>/patch.diff from the scratch copy's working-tree diff (or use the patch already there)."""
import json, os, subprocess, sys
S = "/tmp/seedwt/repo"; sid = sys.argv[1]; D = "/verif/seeded/" + sid
def sh(c, cwd=S, **k):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k); return r.returncode, r.stdout
subprocess.run("git -C %s checkout -q --detach && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S, S), shell=True, check=True)
if not os.path.exists(D + "/demo.sh"): subprocess.run("cp /verif/tools/demo_template.sh %s/demo.sh; chmod +x %s/demo.sh" % (D, D), shell=True)
p = D + "/patch.diff"
rc, o = sh("bash /tmp/seedwt/build.sh"); assert rc == 0, o[-2000:]
rc, o = sh("bash %s/demo.sh" % D); print("demo unpatched:", rc, o[-500:])
ok = rc == 0
rc, o = sh("git apply --check " + p); assert rc == 0, o
sh("git apply " + p)
rc, o = sh("bash /tmp/seedwt/build.sh"); print("build:", rc, o[-1500:] if rc else "")
ok &= rc == 0
if rc == 0:
    rc, o = sh("bash %s/demo.sh" % D); print("demo patched:", rc, o[-500:]); ok &= rc != 0
    sh("bash /tmp/seedwt/test.sh /tmp/seedwt/o.json")
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r = json.load(open('/tmp/seedwt/o.json'))
    miss = b - set(r['passed']); print("tests missing:", miss); ok &= not miss
sh("git checkout -q -- .")
print("SEED", sid, "OK" if ok else "NOT OK")
if ok:
    prop = json.load(open(D + "/meta.json"))["property"]
    for c in [prop] + sys.argv[2:]:
        sh("git apply " + p)
        try:
            r = subprocess.run(["/verif/check", c], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/verif", env=dict(os.environ, KNP_REPO=S))
        finally:
            sh("git checkout -q -- .")
        print("check", c, "exit", r.returncode, [l for l in r.stdout.splitlines() if "VIOL" in l][:2], r.stderr[-300:] if r.returncode not in (0, 1) else "")
