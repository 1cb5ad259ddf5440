#!/usr/bin/env python3
"""usage: check.py PROPERTY   (run in /verif; VERIF_TIER=quick|thorough)"""
import os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    repo = os.environ.get("VERIF_REPO", "/repo")
    import registry
    from report import Check
    if prop not in registry.CHECKS:
        print("unknown property", prop)
        return 2
    mod, fn = registry.CHECKS[prop]
    c = current[0] = Check(prop, tier, repo)
    m = __import__(mod)
    return getattr(m, fn)(c)


code = [2]
current = [None]


def run():
    try:
        code[0] = main()
    except BaseException as e:
        traceback.print_exc()
        print("ANALYSIS ERROR property=%s: %s: %s" % (sys.argv[1] if len(sys.argv) > 1 else "?", type(e).__name__, e))
        code[0] = 2
        c = current[0]
        try:
            if c is not None and c.violations():    # what was decided before the analysis gave up stands
                c.notes.append("the analysis of a part gave up: %s" % e)
                code[0] = c.finish("Incomplete run: the analysis of a part of the code gave up; the violations reported were decided before.")
        except BaseException:
            traceback.print_exc()
            code[0] = 2


t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
sys.exit(code[0])
