"""Verdicts, known findings and evidence of one property check."""
from __future__ import annotations
import json, os, pathlib, sys, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known_findings.txt"


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []  # (rule, construct, status, where, detail)
        self.analysed = []
        self.functions = set()
        self.undecided = []
        self.bad = []
        self.minimum = {}
        self.rules = {}

    # status: True holds, False violated, None undecided
    def ob(self, rule, construct, status, where="", detail=""):
        self.obs.append((rule, str(construct), status, str(where), str(detail)[:600]))
        if status is False:
            self.bad.append(self.obs[-1])
        elif status is None:
            self.undecided.append(self.obs[-1])
        return status

    def rule(self, name, text, minimum=1):
        """a rule and the least number of instances it must find (guards against vacuity)"""
        self.rules[name] = text
        self.minimum[name] = minimum

    def note(self, text):
        self.analysed.append(text)

    def used(self, I):
        self.functions |= I.inlined

    def guard(self, rule, construct, fn, *a, **k):
        """run an obligation generator; an unsupported construct makes it undecided"""
        from .loader import AnalysisError

        try:
            return fn(*a, **k)
        except AnalysisError as e:
            self.ob(rule, construct, None, "", f"analysis not possible: {e}")
        except RecursionError:
            self.ob(rule, construct, None, "", "analysis not possible: nesting too deep")
        except Exception as e:  # the analyser met something it has no model for
            if os.environ.get("SA_RAISE"):
                raise
            self.ob(rule, construct, None, "", f"analysis not possible: {type(e).__name__}: {e}")

    def parallel(self, tasks, jobs=8):
        """run obligation generators (callables taking a report) in forked processes, merge in order"""
        import pickle

        if os.environ.get("SA_RAISE") or os.environ.get("SA_SERIAL"):
            for t in tasks:
                t[0](self, *t[1:])
            return
        out = [None] * len(tasks)
        run = {}
        todo = list(range(len(tasks)))
        import selectors

        sel = selectors.DefaultSelector()
        while todo or run:
            while todo and len(run) < jobs:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        sub = Report(self.pid, self.tier)
                        try:
                            tasks[i][0](sub, *tasks[i][1:])
                        except BaseException as e:
                            sub.ob("analysis", f"task{i}", None, "", f"analysis not possible: {type(e).__name__}: {e}")
                            if type(e).__name__ == "AnchorError":
                                sub.note("$anchor " + str(e))
                        data = pickle.dumps((sub.obs, sub.analysed, sub.functions))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                run[r] = (pid, i, [])
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select():
                fd = key.fd
                b = os.read(fd, 1 << 16)
                if b:
                    run[fd][2].append(b)
                    continue
                sel.unregister(fd)
                os.close(fd)
                pid, i, chunks = run.pop(fd)
                os.waitpid(pid, 0)
                out[i] = b"".join(chunks)
        for i, d in enumerate(out):
            if not d:
                self.ob("analysis", f"task{i}", None, "", "analysis process ended")
                continue
            obs, an, fs = pickle.loads(d)
            for o in obs:
                self.ob(*o)
            self.analysed += an
            self.functions |= fs

    def finish(self, prog=None):
        known = load_known(self.pid)
        viol, kn = [], []
        seen = set()
        for o in self.bad:
            key = f"{o[0]}@{o[1]}"
            if key in seen:
                continue
            seen.add(key)
            (kn if key in known else viol).append((key, o))
        for name, n in self.minimum.items():
            got = sum(1 for o in self.obs if o[0] == name)
            if got < n:
                self.undecided.append((name, "instances", None, "", f"rule met {got} instances, expected at least {n}"))
        ev = ROOT / "evidence"
        ev.mkdir(exist_ok=True)
        n = len({(o[0], o[1]) for o in self.obs})
        und = {(o[0], o[1]): o for o in self.undecided}
        disch = len({(o[0], o[1]) for o in self.obs if o[2] is True} - {(o[0], o[1]) for o in self.obs if o[2] is not True})
        cov = {
            "explanation": "Static obligations decided from the source by abstract interpretation; counts are of distinct obligations (rule at construct).",
            "obligations": n,
            "discharged": disch,
            "undecided": [f"{k[0]}@{k[1]}: {v[4]}" for k, v in und.items()][:60],
            "known_findings": [k for k, _ in kn],
            "rules": self.rules,
            "source_digest": prog.digest() if prog else "",
            "analysed": self.analysed[:400],
            "functions": sorted(self.functions),
            "sample": [dict(rule=o[0], construct=o[1], holds=o[2], where=o[3], detail=o[4][:200]) for o in self.obs[:80]],
        }
        doc = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        (ev / f"{self.pid}.json").write_text(json.dumps(doc, indent=1, default=str) + "\n")
        for k, o in kn:
            print(f"KNOWN-FINDING: property={self.pid} {k} {o[3]} {o[4]}")
        for k, v in und.items():
            print(f"UNDECIDED property={self.pid} {k[0]}@{k[1]}: {v[4]}")
        if viol:
            rp = ev / f"{self.pid}.violation.json"
            rp.write_text(json.dumps([dict(rule=o[0], construct=o[1], where=o[3], detail=o[4], rule_text=self.rules.get(o[0], "")) for _, o in viol], indent=1) + "\n")
            for k, o in viol:
                print(f"  {o[0]}: {o[1]} at {o[3]}: {o[4]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"{self.pid}: {disch} of {n} obligations hold, {len(und)} undecided, {len(kn)} known findings ({doc['wall_s']} s)")
        return 0


def load_known(pid):
    out = set()
    if KNOWN.exists():
        for ln in KNOWN.read_text().splitlines():
            if ln.startswith(f"known: property={pid} "):
                out.add(ln.split("key=", 1)[1].split(" :: ")[0].strip())
    return out
