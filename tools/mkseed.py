"""development aid: write /verif/seeded/<id> from (file, old, new) edits; nat=True copies the finite-difference helper"""
import json, os, shutil, subprocess
SRC = "/tmp/seedsrc"           # scratch clone: /repo itself is not touched
shutil.rmtree(SRC, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", SRC])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, needs, breaks, edits, demo, helpers=()):
    d = os.path.join(V, "seeded", sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["git", "-C", SRC, "diff", "--quiet"])
    try:
        for f, old, new, *cnt in edits:
            p = os.path.join(SRC, f)
            s = open(p, newline="").read()
            n = s.count(old)
            which = cnt[0] if cnt else 0
            if n == 0 or (n > 1 and not cnt):
                raise SystemExit("%s: %d occurrences of %r" % (sid, n, old))
            i = -1
            for _ in range(which + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w", newline="").write(s)
        diff = subprocess.check_output(["git", "-C", SRC, "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.check_call(["git", "-C", SRC, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD"\nexec $PY "$(dirname "$0")/demo.py"\n')
    for h in helpers:
        shutil.copy(os.path.join(V, "tools", h), d)
