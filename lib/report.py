"""Verdicts, evidence, replay files and known findings, common to every check."""
import json, multiprocessing, os, pickle, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", ROOT)     # where evidence and replay files go


class Check:
    """collects the obligations of one property"""

    def __init__(self, prop, tier, repo):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.t0 = time.time()
        self.obligations = []      # (rule, where, ok, key, detail)
        self.analysed = {}         # what was analysed -> count or list
        self.rules = []
        self.notes = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, rule, where, ok, detail="", key=None):
        """one obligation: rule applied at a construct; key identifies a violation independently of line numbers"""
        self.obligations.append((rule, where, bool(ok), key or "%s @ %s" % (rule, where), detail))
        return ok

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def parallel(self, jobs, workers=8):
        """run independent jobs (closures adding obligations to this check) in forked workers; same result as calling them in order"""
        jobs = list(jobs)
        n = min(workers, len(jobs))
        if n <= 1 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                j()
            return
        ctr = multiprocessing.get_context("fork").Value("i", 0)
        kids = []
        for _ in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = []
                    while True:
                        with ctr.get_lock():
                            i = ctr.value
                            ctr.value += 1
                        if i >= len(jobs):
                            break
                        self.obligations, self.analysed, self.notes, self.rules = [], {}, [], []
                        try:
                            jobs[i]()
                            out.append((i, self.obligations, self.analysed, self.notes, self.rules, None))
                        except BaseException as e:
                            out.append((i, self.obligations, self.analysed, self.notes, self.rules, (type(e).__name__, str(e), traceback.format_exc())))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        res = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st != 0 or not data:
                raise RuntimeError("a worker of this check ended abnormally (status %s)" % st)
            res += pickle.loads(data)
        res.sort(key=lambda x: x[0])
        if len(res) != len(jobs):
            raise RuntimeError("jobs lost")
        for _, obs, an, notes, rules, _ in res:
            self.obligations += obs
            for k, v in an.items():
                if isinstance(v, int):
                    self.analysed[k] = self.analysed.get(k, 0) + v
                else:
                    l = self.analysed.setdefault(k, [])
                    l += [y for y in v if y not in l]
            self.notes += [y for y in notes if y not in self.notes]
            for y in rules:
                self.rule(y)
        for x in res:
            if x[5] is not None:
                from gvn import AnalysisError
                raise AnalysisError("%s: %s\n%s" % x[5])

    def violations(self):
        keys = {k for k, _ in self.known()}
        return [o for o in self.obligations if not o[2] and o[3] not in keys]

    def known(self):
        out = []
        path = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % self.prop) and " key=[" in line:
                    k = line[line.index(" key=[") + 6:]
                    out.append((k[:k.index("]")], line))
        return out

    def finish(self, explanation, floors=()):
        """write evidence, print the verdict, return the exit code"""
        known = self.known()
        bad = [o for o in self.obligations if not o[2]]
        new, listed = [], []
        for o in bad:
            hit = [line for k, line in known if k == o[3]]
            if hit:
                listed.append((o, hit[0]))
            else:
                new.append(o)
        for name, floor in floors:
            n = self.analysed.get(name, 0)
            if not isinstance(n, int):
                n = len(n)
            if n < floor and not new:
                raise RuntimeError("instance floor: only %d %s analysed (expected at least %d)" % (n, name, floor))
        if not self.obligations:
            raise RuntimeError("no obligation was generated")
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
            "coverage": {
                "explanation": explanation,
                "rules": self.rules,
                "analysed": self.analysed,
                "obligations": len(self.obligations),
                "discharged": len(self.obligations) - len(bad),
                "known_findings": [l for _, l in listed],
                "violations": [{"rule": o[0], "where": o[1], "key": o[3], "detail": o[4]} for o in new],
                "sites": [{"rule": o[0], "where": o[1], "ok": o[2]} for o in self.obligations[:400]],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for _, l in listed:
            print(l)
        if new:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            path = os.path.join(OUT, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump(ev["coverage"]["violations"], f, indent=1, default=str)
            for o in new[:20]:
                print("%s: %s: %s" % (o[0], o[1], o[4]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("property=%s held: %d obligations discharged, %d known findings, %.1f s" % (
            self.prop, len(self.obligations) - len(bad), len(listed), time.time() - self.t0))
        return 0
