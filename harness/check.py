"""One check: explore models, replay, record, validate, report."""
import json
import os
import re
import sys
from time import time

from . import record, tlc, validate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time()
        self.states = self.transitions = self.traces = self.events = self.free = 0
        self.samples, self.models, self.parts, self.violations = [], [], [], []
        self.assumptions = []
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- the model itself --------------------------------------------------
    def model(self, module, cfg=None, timeout=800, workers=8, env=None, extra=()):
        """Exhaustive exploration; every invariant must hold of the specification."""
        r = tlc.run(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
        if not r.finished:
            raise tlc.TlcError(f"{module}/{cfg}: " + r.error_text())
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(
            {"module": module, "config": cfg or module, "states": r.distinct, "transitions": r.generated,
             "depth": r.depth, "wall_s": round(r.wall, 1)}
        )
        return r

    def tests(self, module, cfg=None, **kw):
        """The behaviours an emitting model prints (TEST lines)."""
        r = self.model(module, cfg, **kw)
        out = []
        for m in re.finditer(r'^"TEST (.*)"$', r.out, re.M):
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return out

    # -- the code ----------------------------------------------------------
    def validate(self, module, histories, ignore=(), what="", timeout=800):
        record.DONE.clear()
        record.OPEN.clear()
        rep = validate.validate(module, histories, ignore=ignore, timeout=timeout)
        self.states += rep.states
        self.transitions += rep.transitions
        self.traces += rep.histories - rep.free
        self.events += rep.events
        self.free += rep.free
        self.parts.append(
            {"what": what or module, "spec": module, "traces": rep.histories, "calls": rep.events,
             "rejected": len(rep.bad), "unconstrained": rep.free, "wall_s": round(rep.wall, 1)}
        )
        if histories:
            h = min(histories[: 50], key=lambda h: (abs(len(json.dumps(h)) - 1500)))
            self.samples.append({"what": what or module, "history": shorten(h)})
        for h, n, clause in rep.bad:
            self.report(module, h, n, clause)
        return rep

    def report(self, module, h, n, clause):
        for k in known_findings():
            if k.get("status") == "known" and k["property"] == self.pid and k["clause"] == clause and matches(
                k.get("match"), h["ev"][n - 1]
            ):
                self.known_hit.append(k)
                return
        self.violations.append({"module": module, "clause": clause, "call": n, "history": h})

    def rescue(self):
        """
        The check could not be finished. What was recorded so far is judged all the same: code under test that does
        what nobody expected can bring down the harness that drives it, but not the verdict on what it did.
        """
        groups = {}
        for h in list(record.OPEN):
            try:
                h.json()
            except Exception:
                pass
        for module, j in list(record.DONE):
            groups.setdefault(module, []).append(j)
        for module, hs in groups.items():
            try:
                self.validate(module, hs, (), "recorded before the check broke off")
            except tlc.TlcError:
                pass
        return self.violations

    # -- the end -------------------------------------------------------------
    def finish(self):
        seen = set()
        for k in self.known_hit:
            if k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        by_clause = {}
        for v in self.violations:
            by_clause.setdefault(v["clause"], []).append(v)
        for i, (clause, vs) in enumerate(sorted(by_clause.items())[:20]):
            v = min(vs, key=lambda v: len(json.dumps(v["history"])))
            path = os.path.join(VERIF, "replays", f"{self.pid}-{self.tier}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=self.pid, occurrences=len(vs)), f)
            print(f"  clause {clause}: {len(vs)} rejected, e.g. call {v['call']} of {shorten(v['history'], 700)}")
            print(f"VIOLATION property={self.pid} replay={path}")
        self.evidence()
        sys.stdout.flush()
        return 1 if self.violations else 0

    def evidence(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "calls_validated": self.events,
            "models": self.models,
            "parts": self.parts,
            "samples": self.samples[:6],
        }
        doc = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        text = json.dumps(doc, indent=1)
        while len(text) > 60000 and cov["samples"]:
            cov["samples"].pop()
            text = json.dumps(doc, indent=1)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            f.write(text)


def matches(want, event):
    """Every key of a known finding's pattern has that value in the event."""
    return bool(want) and all(event.get(k) == v for k, v in want.items())


def shorten(h, limit=3000):
    s = json.dumps(h, separators=(",", ":"))
    return s if len(s) <= limit else s[:limit] + "..."
