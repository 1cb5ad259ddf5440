"""Apply each rewrite of refactors.py to a scratch copy, compile it, run the native checks on it; every one has to be quiet."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import refactors, refactors_py
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("KIND") == "py"
ALL = "G01 G02 G03 G04 G05 F01 F02 F03 D01 S03 S04 C02 C03 E01"
BY = {refactors_py.R: "G06 G07 G08 G09 C01 E01 H01 S02 T01 K01", refactors_py.M: "G07 C03 M01 M02 A01 T01 C01",
      refactors_py.T: "G07 G08 A01", refactors_py.L: "G08 T01", refactors_py.F: "G08 L01 E01"}


def one(name, edits, file=refactors.H):
    props = os.environ.get("PROPS", BY.get(file, "T01 K01") if PY else ALL).split()
    d = tempfile.mkdtemp(prefix="refactor-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        subprocess.run("cd /repo && git archive HEAD | tar x -C " + r, shell=True, check=True)
        f = os.path.join(r, file)
        t = open(f).read()
        for old, new in edits:
            if old not in t:
                return f"{name}: TEXT NOT FOUND {old[:60]!r}"
            t = t.replace(old, new)
        open(f, "w").write(t)
        if PY:
            compile(t, file, "exec")
        c = subprocess.CompletedProcess([], 0) if PY else subprocess.run(["g++", "-fsyntax-only", "-x", "c++", "-include", "climits", f], capture_output=True, text=True)
        if c.returncode:
            return f"{name}: DOES NOT COMPILE {c.stderr[:600]}"
        out = []
        for p in props:
            e = dict(os.environ, VERIF_REPO=r, VERIF_OUT=os.path.join(d, "out"))
            os.makedirs(e["VERIF_OUT"], exist_ok=True)
            x = subprocess.run(["python3-vt", os.path.join(V, "check.py"), p], env=e, capture_output=True, text=True)
            if x.returncode:
                out.append(f"  {p} exit {x.returncode}: " + "\n     ".join((x.stdout + x.stderr).strip().splitlines()[-3:])[:900])
        return f"{name}: " + ("quiet" if not out else "ALARM\n" + "\n".join(out))
    finally:
        shutil.rmtree(d)


names = sys.argv[1:]
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for m in ex.map(lambda e: one(*e), [e for e in (((n, d, f) for n, f, d in refactors_py.P) if PY else refactors.R) if not names or e[0] in names]):
        print(m, flush=True)
