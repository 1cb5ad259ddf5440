"""Self-test: apply small edits to a scratch copy of the repository and see which checks alarm.
usage: mutate.py [PROP ...]      (entries in tools/mutations_*.txt style python lists: name, props, file, edits, expect)"""
import os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from mutations import M
want = set(a for a in sys.argv[1:] if not a.startswith("-"))


def one(e):
    name, props, file, edits, expect = e
    props = [p for p in props if not want or p in want or name in want]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for x in ("deodr", "C++"):
            shutil.copytree(os.path.join(os.environ.get("BASE", "/repo"), x), os.path.join(d, x), ignore=shutil.ignore_patterns("*.so", "__pycache__", "data", "build"))
        files = file if isinstance(file, list) else [file] * len(edits)
        for fl, (a, b) in zip(files, edits):
            p = os.path.join(d, fl)
            t = open(p).read()
            if a not in t:
                return name, "EDIT DOES NOT APPLY: " + a
            open(p, "w").write(t.replace(a, b, 1))
        out = []
        for p in props:
            r = subprocess.run(["python3-vt", os.path.join(ROOT, "check.py"), p], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d),
                               capture_output=True, text=True)
            ok = (r.returncode == 1) if expect == "catch" else (r.returncode == 0)
            lines = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
            out.append("%s:%s(%d)" % (p, "ok" if ok else "**BAD**", r.returncode) + ("" if ok else " " + "\n      ".join(l[:300] for l in lines[-3:])))
        return name, " ".join(out)
    finally:
        shutil.rmtree(d)


todo = [e for e in M if not want or e[0] in want or set(e[1]) & want]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
    for name, r in ex.map(one, todo):
        print("%-40s %s" % (name, r), flush=True)
