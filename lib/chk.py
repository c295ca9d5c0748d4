"""A check: collects what was explored, the violations, and gives the verdict."""
import json, os, sys, time
import ecv
from ecv import CheckError, Work, build, run_driver, judge, model_check, TIER, SEED, VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


class Enough(Exception):
    """operations do not end: no need to go on"""


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid, self.tier, self.seed = pid, tier or TIER, SEED if seed is None else seed
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = Work()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], {}, []
        self.viol = []
        self.known_hit = []
        self.known = load_known(pid)
        self._exe = None

    @property
    def exe(self):
        if self._exe is None:
            self._exe = build(self.work)
        return self._exe

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- design
    def model(self, module, cfg=None, **k):
        """exhaustive check of a specification"""
        gen, dist, out = model_check(self.work, module, cfg, **k)
        self.states += dist
        self.transitions += gen
        p = self.parts.setdefault("model:" + (cfg or module), {"states": 0, "transitions": 0})
        p["states"] += dist
        p["transitions"] += gen
        return out

    # ----------------------------------------------------------- conformance
    def add_violation(self, case, what):
        for k in self.known:
            if k["match"] in "\n".join(case.lines):
                self.known_hit.append((k, what))
                return
        self.viol.append((case, what))

    def conform(self, name, cases, module, cfg=None, leaks=True, crashes=True, env=None,
                cpu=10, steps=None, nobs=None, batches=None):
        """execute the cases, then check what was observed against the specification.
        crashes=False: a crash is not a violation of this property (but the case is
        not judged either)"""
        if not cases:
            raise CheckError("no case for " + name)
        run_driver(self.exe, cases, self.work, cpu=cpu, batches=batches)
        good = []
        cases = [c for c in cases if not c.skip]
        confirmed = endless = 0
        for c in cases:
            slow = c.crash is not None and "TIMEOUT" in c.crash["err"]
            if slow and endless >= 2:
                continue
            if c.crash is not None and (slow or confirmed < 10):
                confirmed += 1
                if c.crash["rc"] == -9:
                    raise CheckError("the driver was killed")
                again = ecv.Case(c.lines, c.rec, c.tag)
                ecv.run_driver(self.exe, [again], self.work, cpu=cpu * 3, batches=1)
                if again.crash is None and "TIMEOUT" in c.crash["err"]:
                    c.obs, c.leak, c.crash = again.obs, again.leak, None
                elif again.crash is not None and again.crash["rc"] == -9:
                    raise CheckError("the driver was killed")
                endless += slow and c.crash is not None
            if c.crash is not None:
                if crashes:
                    self.add_violation(c, {"crash": c.crash})
                continue
            want = nobs(c) if nobs else len(c.rec["q"])
            if len(c.obs) != want:
                self.add_violation(c, {"unexpected answers": c.obs[:6], "expected answers": want})
                continue
            if leaks and c.leak != 0:
                self.add_violation(c, {"leak": c.leak})
                continue
            good.append(c)
        bad, gen, dist = judge(self.work, module, good, cfg=cfg, extra_env=env, steps=steps)
        by = {c.id: c for c in good}
        for b in bad:
            self.add_violation(by[b["id"]], {"rejected": b, "observed": by[b["id"]].obs})
        self.states += dist
        self.transitions += gen
        self.traces += len(cases)
        p = self.parts.setdefault(name, {"cases": 0, "queries": 0, "judged_states": 0})
        p["cases"] += len(cases)
        p["queries"] += sum(len(c.obs) for c in good)
        p["judged_states"] += dist
        for c in good[:1] + good[len(good) // 2:len(good) // 2 + 1]:
            if len(self.samples) < 8:
                self.samples.append({"part": name, "lines": [l[:200] for l in c.lines[:40]],
                                     "observed": json.dumps(c.obs)[:600]})
        if endless and self.viol:
            raise Enough()
        return good

    # --------------------------------------------------------------- verdict
    def finish(self):
        if ecv.evidence_dir() is None:
            raise CheckError("no evidence directory")
        ev = ecv.evidence_dir()
        if self.traces == 0:
            raise CheckError("nothing was executed")
        res = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
               "level": "model_checking",
               "coverage": {"states": self.states, "transitions": self.transitions,
                            "traces_validated_against_impl": self.traces,
                            "samples": self.samples, "parts": self.parts},
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
               "violations": len(self.viol)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(res, f, indent=1)
            f.write("\n")
        seen = set()
        for k, what in self.known_hit:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for i, (c, what) in enumerate(self.viol[:5]):
            path = os.path.join(ev, "replay-%s-%d.json" % (self.pid, i + 1))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "lines": c.lines, "record": c.rec, "what": what}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + json.dumps(what)[:700])
            print("  " + " ; ".join(c.lines)[:700])
        if len(self.viol) > 5:
            print("  ... %d violations in total" % len(self.viol))
        print("%s: %d cases executed, %d states, %d violations, %.1f s" % (
            self.pid, self.traces, self.states, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0
