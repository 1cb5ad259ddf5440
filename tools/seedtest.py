#!/usr/bin/env python3
"""development aid: confirm a planted change in a scratch copy of /repo and run checks on it
usage: seedtest.py ID [PROPERTY...] [--nobuild]     (PROPERTY defaults to the one of meta.json)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
sid, props = args[0], args[1:]
d = os.path.join(V, "seeded", sid)
meta = json.load(open(os.path.join(d, "meta.json")))
props = props or [meta["property"]]
W = "/tmp/seed/" + sid
shutil.rmtree(W, ignore_errors=True)
os.makedirs("/tmp/seed", exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", W])
shutil.rmtree(W + "/.git")
r = {}
if "--nobuild" not in sys.argv:
    r["demo clean"] = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
p = subprocess.run(["git", "apply", "--check", d + "/patch.diff"], cwd="/repo")
assert p.returncode == 0, "patch does not apply"
subprocess.check_call("patch -s -p1 < %s/patch.diff" % d, shell=True, cwd=W)
subprocess.run("mkdir -p /tmp/seed/vp; cp -r /opt/vp/. /tmp/seed/vp/", shell=True)
if "--nobuild" not in sys.argv:
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", W).replace("/opt/vp/build.sh", W + ".build.sh").replace("/opt/vp", "/tmp/seed/vp")
        open(W + "." + n, "w").write(s)
    b = subprocess.run(["bash", W + ".build.sh"], stdout=open(W + ".blog", "w"), stderr=subprocess.STDOUT)
    r["build"] = b.returncode
    subprocess.run(["bash", W + ".test.sh", W + ".json"], stdout=open(W + ".tlog", "w"), stderr=subprocess.STDOUT)
    r["tests"] = open(W + ".tlog").read().strip().splitlines()[-1]
    q = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r["demo patched"] = q.returncode
    print(q.stdout[-600:])
for p in props:
    q = subprocess.run(["python3-vt", V + "/check.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r[p] = q.returncode
    print("\n".join(l[:400] for l in q.stdout.splitlines()[-8:]))
print(sid, r)
shutil.rmtree(W)
subprocess.run("rm -rf %s.*" % W, shell=True)
